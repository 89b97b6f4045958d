// C13: records loads of CSV/TSV/JSON documents and queries on the loaded data
#include "vp.h"
#include "tools/DataLoader.h"
#include <sstream>
using namespace MML; using namespace MML::Data; using namespace vp;
static Out out;
typedef std::string S; typedef std::vector<int> Codes;
static Codes codes(const S& s) { Codes v; for (unsigned char c : s) v.push_back(c); return v; }
static std::vector<Codes> codesv(const std::vector<S>& s) { std::vector<Codes> v; for (auto& x : s) v.push_back(codes(x)); return v; }
static S colJson(const DataColumn& c, bool name) {
  S v = "["; size_t n = c.missingMask.size();
  for (size_t i = 0; i < n; i++) { if (i) v += ",";
    auto str = [&](const std::vector<S>& d) { return i < d.size() ? js(codes(d[i])) : S("[-1]"); };
    switch (c.type) {
      case ColumnType::REAL: v += i < c.realData.size() ? js((double)c.realData[i]) : S("\"none\""); break;
      case ColumnType::INT: v += i < c.intData.size() ? js((long long)c.intData[i]) : S("\"none\""); break;
      case ColumnType::BOOL: v += i < c.boolData.size() ? js((bool)c.boolData[i]) : S("\"none\""); break;
      case ColumnType::DATE: v += str(c.dateData); break;
      case ColumnType::TIME: v += str(c.timeData); break;
      case ColumnType::DATETIME: v += "[" + str(c.dateData) + "," + str(c.timeData) + "]"; break;
      default: v += str(c.stringData); } }
  v += "]"; S m = "["; for (size_t i = 0; i < n; i++) m += S(i ? "," : "") + (c.IsMissing(i) ? "true" : "false"); m += "]";
  return "{\"t\":" + js(ColumnTypeToString(c.type)) + (name ? ",\"name\":" + js(codes(c.name)) : S()) + ",\"size\":" + js((int)c.Size()) + ",\"miss\":" + m + ",\"v\":" + v + "}";
}
static S colsJson(const Dataset& d, bool name = false) { S s = "["; for (size_t i = 0; i < d.NumColumns(); i++) s += (i ? "," : "") + colJson(d[i], name); return s + "]"; }
static void put(Ev& e, const S& err, const Dataset& d) {
  e.kv("err", err).kv("names", codesv(d.GetColumnNames())).kv("rows", (int)d.NumRows()).kv("cols", Raw{colsJson(d)});
}
static void write(const S& f, const S& doc) { std::ofstream o(f, std::ios::binary); o.write(doc.data(), doc.size()); }
static Dataset csv(const S& doc, char d, bool hdr, bool infer, bool strict, bool warn, int via) {
  Dataset r; std::vector<S> w; S err;
  if (via == 0) write("d.csv", doc);
  else if (via == 1) write("d.tsv", doc);
  auto take = [&](const LoadResult& L) { if (L.success) r = L.data; else { err = L.errorMessage.empty() ? "" : "failed"; r = L.data; } };
  if (via == 0) err = guarded([&] { CSVLoadOptions o; o.hasHeader = hdr; o.delimiter = d; o.inferTypes = infer; o.strictSchema = strict; if (warn) o.warnings = &w; r = LoadCSV("d.csv", o); });
  else if (via == 1) { d = '\t'; strict = warn = false; err = guarded([&] { r = LoadTSV("d.tsv", hdr, infer); }); }
  else if (via == 2) { strict = warn = false; infer = true; err = guarded([&] { r = LoadFromCSVString(doc, d, hdr); }); }
  else if (via == 3) { write("d.csv", doc); strict = warn = false; take(LoadCSVSafe("d.csv", hdr, d, infer)); }
  else { write("d.tab", doc); d = '\t'; infer = true; strict = warn = false; err = guarded([&] { r = LoadData("d.tab", hdr); }); }
  Ev e("csv"); e.kv("doc", codes(doc)).kv("d", (int)(unsigned char)d).kv("hdr", hdr).kv("infer", infer).kv("strict", strict).kv("warn", warn).kv("via", via).kv("nwarn", (int)w.size());
  put(e, err, r); out.ev(e); return err.empty() ? r : Dataset();
}
static Dataset json(const S& doc, int via) {
  Dataset r; S err;
  if (via == 0) err = guarded([&] { r = LoadFromJSONString(doc); });
  else { write("d.json", doc);
    if (via == 1) err = guarded([&] { r = LoadJSON("d.json"); });
    else if (via == 2) { auto L = LoadJSONSafe("d.json"); if (!L.success) err = "failed"; r = L.data; }
    else err = guarded([&] { r = LoadData("d.json"); }); }
  Ev e("json"); e.kv("doc", codes(doc)).kv("via", via); put(e, err, r); out.ev(e); return err.empty() ? r : Dataset();
}
static std::vector<Codes> splitTab(const S& line) { std::vector<Codes> v; S f; for (char c : line) if (c == '\t') { v.push_back(codes(f)); f.clear(); } else f += c; v.push_back(codes(f)); return v; }
static std::vector<std::vector<Codes>> lines(const S& t) { std::vector<std::vector<Codes>> v; S l; for (char c : t) if (c == '\n') { v.push_back(splitTab(l)); l.clear(); } else l += c; return v; }
static void queries(Rng& R, const Dataset& d) {
  if (d.NumColumns() == 0) return;
  auto names = d.GetColumnNames(); std::map<S, int> first; for (int i = (int)names.size() - 1; i >= 0; i--) first[names[i]] = i;
  if (first.size() != names.size()) return;
  int fc = R.range(0, names.size() - 1); auto text = d.GetStringColumn(names[fc]); S want = text.size() ? text[R.range(0, text.size() - 1)] : "x";
  Dataset f = d.FilterRows(names[fc], [&](const S& x) { return x == want; });
  out.ev(Ev("filter").kv("text", codesv(text)).kv("want", codes(want)).kv("before", Raw{colsJson(d, true)}).kv("after", Raw{colsJson(f, true)}).kv("rows", (int)f.NumRows()));
  std::vector<int> pick; std::vector<S> pn; for (int i = 0, n = R.range(1, 3); i < n; i++) { int k = R.range(0, names.size() - 1); pick.push_back(k); pn.push_back(names[k]); }
  Dataset s = d.SelectColumns(pn);
  out.ev(Ev("select").kv("pick", pick).kv("before", Raw{colsJson(d, true)}).kv("after", Raw{colsJson(s, true)}).kv("rows", (int)s.NumRows()).kv("brows", (int)d.NumRows()));
  std::vector<std::vector<Codes>> texts; bool clean = true;
  for (auto& n : names) { auto t = d.GetStringColumn(n); for (auto& x : t) if (x.find_first_of("\t\n") != S::npos) clean = false; if (n.find_first_of("\t\n") != S::npos) clean = false; texts.push_back(codesv(t)); }
  if (clean) { int n = R.range(0, d.NumRows() + 1); out.ev(Ev("head").kv("n", n).kv("rows", (int)d.NumRows()).kv("names", codesv(names)).kv("texts", texts).kv("head", lines(d.Head(n))).kv("tail", lines(d.Tail(n)))); }
}
static const std::vector<std::vector<S>> POOL = {
  {"0", "1", "-7", "+3", "007", "2147483647", "-2147483648", "12", "NA", ""},
  {"2147483648", "-2147483649", "5", "99999999999999999999"},
  {"1.5", "-.5", "2.", "1e3", "1E-3", "0.1", "3", "-0.0", "+2.5e+2", "4.9e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "", "n/a", "0.30000000000000004", "1e-320"},
  {"1e999", "1.5", "2"}, {"1.5", "1.2.3", "4"}, {"12abc", "3"}, {"0x10", "1"}, {"--1", "1"}, {"1e", "1"}, {"inf", "1.0"}, {"-inf"},
  {"true", "false", "Yes", "no", "T", "f", "Y", "N", "TRUE", "", "?"}, {"true", "1", "0"},
  {"2024-01-31", "1999/12/1", "2024-1-1", "null"}, {"2024-01-31", "20240131"}, {"2024-011-31"},
  {"12:30", "1:05:09", "23:59:59.25", ".", "23:59:59.123", "1:02.5"}, {"12:3"}, {"12:30:5"},
  {"2024-01-31 12:30", "1999/12/1T1:05:09", "2024-1-1 00:00:00", "None"}, {"2024-01-31 12:30:00.5"}, {"2024-01-31", "2024-01-31 12:30"},
  {"alpha", "beta gamma", "a,b", "q\"uote", "\"", "\"\"", "line\nbreak", "tab\there", "semi;colon", " padded ", "NA", "-", "\xc3\xa9t\xc3\xa9", "cr\rlf", "'", "#", "a\r\nb"},
  {"", "NA", "N/A", "NaN", "null", "NONE", ".", "?", "-"}, {"nana", "..", "-1"},
};
static S upper(S s) { for (auto& c : s) c = toupper(c); return s; }
static S quot(const S& s) { S o = "\""; for (char c : s) { if (c == '"') o += '"'; o += c; } return o + "\""; }
static S cellOf(Rng& R, const std::vector<S>& p, const std::vector<S>& other) { S s = R.chance(1, 14) ? R.pick(other) : R.pick(p); if (R.chance(1, 20)) s = upper(s); return s; }
static S makeCsv(Rng& R, char d, bool hdr, bool uneven, bool stray, int maxr = 8) {
  int nc = R.range(1, 4), nr = R.range(hdr ? 0 : 1, maxr); S eol = R.chance(1, 3) ? "\r\n" : "\n"; S doc; if (R.chance(1, 6)) doc = "\xEF\xBB\xBF";
  std::vector<const std::vector<S>*> pool; for (int c = 0; c < nc; c++) pool.push_back(&R.pick(POOL));
  auto blank = [&] { if (R.chance(1, 10)) doc += (R.chance(1, 2) ? "" : "  ") + eol; };
  auto row = [&](std::vector<S> cells, bool last) {
    for (size_t i = 0; i < cells.size(); i++) { S w = cells[i]; bool need = w.find_first_of(S("\"\n\r") + d) != S::npos;
      if (i) doc += d; if (need || R.chance(1, 4)) w = quot(w); else if (R.chance(1, 8)) w = (R.chance(1, 2) ? " " : "") + w + (R.chance(1, 2) ? "  " : "");
      if (stray && R.chance(1, 6)) w += "\""; if (stray && R.chance(1, 6)) w += "\"z"; doc += w; }
    if (!last || R.chance(2, 3)) doc += eol; };
  blank();
  if (hdr) { std::vector<S> h; for (int c = 0; c < nc; c++) h.push_back(R.chance(1, 8) ? "" : R.chance(1, 6) ? S("h") + (char)d + std::to_string(c) : R.chance(1, 8) ? "na\"me" + std::to_string(c) : " col " + std::to_string(c)); row(h, nr == 0); }
  for (int r = 0; r < nr; r++) { blank(); std::vector<S> cs; for (int c = 0; c < nc; c++) cs.push_back(cellOf(R, *pool[c], R.pick(POOL)));
    if (uneven && R.chance(1, 3)) { if (R.chance(1, 2) && cs.size() > 1) cs.pop_back(); else cs.push_back("extra"); } row(cs, r == nr - 1); }
  blank(); return doc;
}
static S jstr(Rng& R, const S& s) {
  S o = "\""; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; char b[8];
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += R.chance(1, 3) ? "\\u000a" : "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == 8) o += "\\b"; else if (c == 12) o += "\\f"; else if (c == '/') o += R.chance(1, 2) ? "\\/" : "/";
    else if (c < 32 || (c < 128 && R.chance(1, 25))) { snprintf(b, sizeof b, R.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); o += b; } else o += (char)c; }
  static const std::vector<S> uni = {"\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\u0041"}; if (R.chance(1, 12)) o += R.pick(uni); return o + "\"";
}
static S makeJson(Rng& R) {
  auto ws = [&] { static const std::vector<S> w = {"", "", "", " ", "\n", "\t", "\r\n  "}; return R.pick(w); };
  static const std::vector<S> nums = {"0", "-0", "1", "-12", "2.5", "1e5", "1E-2", "-3.25e+1", "12345678901", "0.1", "100"};
  int nk = R.range(1, 4), nr = R.range(0, 6); std::vector<S> keys = {"a", "b key", "c\"q", "d\\", "\xc3\xa9"}; S doc = R.chance(1, 8) ? "\xEF\xBB\xBF" : "";
  std::vector<int> kind; for (int k = 0; k < nk; k++) kind.push_back(R.range(0, 4)); std::vector<const std::vector<S>*> pool; for (int k = 0; k < nk; k++) pool.push_back(&R.pick(POOL));
  doc += ws() + "[" + ws();
  for (int r = 0; r < nr; r++) { if (r) doc += ws() + "," + ws(); doc += "{" + ws(); bool first = true;
    std::vector<int> ord; for (int k = 0; k < nk; k++) if (!R.chance(1, 4)) ord.push_back(k); if (R.chance(1, 4)) std::reverse(ord.begin(), ord.end());
    for (int k : ord) { if (!first) doc += ws() + "," + ws(); first = false; doc += jstr(R, keys[k]) + ws() + ":" + ws();
      int kd = R.chance(1, 10) ? R.range(0, 4) : kind[k]; doc += kd == 0 ? R.pick(nums) : kd == 1 ? (R.chance(1, 2) ? S("true") : S("false")) : kd == 2 && R.chance(1, 2) ? S("null") : jstr(R, R.pick(*pool[k])); }
    doc += ws() + "}"; }
  return doc + ws() + "]" + ws();
}
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int K = a.thorough() ? 12 : 1;
  // documents written by the specification's writer
  if (!a.script.empty()) { std::ifstream f(a.script); S line; int n = 0;
    while (std::getline(f, line)) { line = line.substr(line.rfind(';') + 1); std::istringstream is(line); int x; S doc; while (is >> x) doc += (char)x; out.begin("spec-" + std::to_string(n));
      Dataset d = csv(doc, ',', n % 2, true, false, true, 0); csv(doc, ',', n % 2, true, false, false, n % 4 == 1 ? 3 : 2); queries(R, d); out.end(); n++; } }
  for (int i = 0; i < 220 * K; i++) { static const std::vector<char> ds = {',', ',', '\t', ';', '|'}; char d = R.pick(ds); bool hdr = R.chance(1, 2); S doc = makeCsv(R, d, hdr, R.chance(1, 4), R.chance(1, 12));
    out.begin("csv-" + std::to_string(i)); int via = d == '\t' ? R.pick(std::vector<int>{0, 1, 2, 3, 4}) : R.pick(std::vector<int>{0, 2, 3});
    Dataset r = csv(doc, d, hdr, !R.chance(1, 8), R.chance(1, 4), R.chance(1, 3), via); if (R.chance(1, 3)) queries(R, r);
    if (via != 2 && R.chance(1, 2)) csv(doc, d, hdr, true, false, false, 2); out.end(); }
  // cut and damaged delimited documents
  for (int i = 0; i < 40 * K; i++) { S doc = makeCsv(R, ',', true, false, false, 3); out.begin("csvcut-" + std::to_string(i)); for (int j = 0; j < 3; j++) csv(doc.substr(0, R.range(0, doc.size())), ',', true, true, false, false, R.chance(1, 2) ? 2 : 0); out.end(); }
  // a column with one misfit among many
  for (int i = 0; i < 12 * K; i++) { S doc = "x\n"; int n = R.range(12, 30), bad = R.range(0, n - 1); auto& p = POOL[i % 4 == 0 ? 11 : i % 4 == 1 ? 13 : i % 4 == 2 ? 0 : 2]; for (int r = 0; r < n; r++) { S s = r == bad ? R.pick(POOL[22]) : R.pick(p); doc += quot(s) + "\n"; }
    out.begin("misfit-" + std::to_string(i)); csv(doc, ',', true, true, false, false, i % 2 ? 0 : 2); out.end(); }
  for (int i = 0; i < 220 * K; i++) { S doc = makeJson(R); out.begin("json-" + std::to_string(i)); Dataset d = json(doc, R.range(0, 3)); if (R.chance(1, 3)) queries(R, d);
    for (int j = 0; j < 2; j++) { S m = doc; int at = m.empty() ? 0 : R.range(0, m.size() - 1); static const S junk = ",:{}[]\"\\0a-.etu9 n";
      switch (R.range(0, 3)) { case 0: m = m.substr(0, at); break; case 1: m.erase(at, 1); break; case 2: m.insert(at, 1, junk[R.range(0, junk.size() - 1)]); break; default: m[at] = junk[R.range(0, junk.size() - 1)]; }
      json(m, R.range(0, 2)); } out.end(); }
  static const std::vector<S> js0 = {"", " ", "[]", "[ ]", "[{}]", "[{},{}]", "[{\"a\":1},{}]", "[{},{\"a\":1}]", "[{\"a\":1}]x", "[{\"a\":1}", "[{\"a\":1},]", "[,{\"a\":1}]", "[{\"a\":1} {\"a\":2}]", "[{\"a\":1,}]", "[{,\"a\":1}]", "[{\"a\":1 \"b\":2}]", "[{\"a\":01}]", "[{\"a\":1.}]", "[{\"a\":-}]", "[{\"a\":.5}]", "[{\"a\":1e}]", "[{\"a\":+1}]", "[{\"a\":1-2}]", "[{\"a\":[1]}]", "[{\"a\":{}}]", "[{\"a\":nul}]", "[{\"a\":True}]", "[{\"a\":1,\"a\":2}]", "[{\"a\":\"\\x\"}]", "[{\"a\":\"\\u12\"}]", "[{\"a\":\"\\ud800\"}]", "[{\"a\":\"\\ud800\\u0041\"}]", "{\"a\":1}", "[1]", "[[]]", "null", "[{\"a\":1}]]", "[{\"a\":\"x}]", "[{a:1}]", "[{\"a\"1}]", "[{\"a\":1},{\"b\":2},{\"a\":3,\"b\":4}]", "[{\"a\":truex}]", "[{\"a\":12x}]", "[{\"\":1}]", "[{\"a\":\"\\b\\f\\n\\r\\t\\/\\\\\\\"\"}]"};
  for (size_t i = 0; i < js0.size(); i++) { out.begin("jsonfix-" + std::to_string(i)); json(js0[i], 0); json(js0[i], 2); out.end(); }
  static const std::vector<S> cs0 = {"", "\n\n", " \n", "a", "a\n", "a,b", "a,b\n1,2\n\n3,4", "a,b\r\n1,2\r\n", "\"a\"\"b\",c\n1,2", "a\n\"\"\n1", "a,b\n,\n1,2", "a,b\n\"x\ny\",2\n3,4", "a,b\n\"x,2\n3,4", "a,b\n1\n2,3,4\n5,6", "a,b\n\"1\",\" 2 \"", "\"a\nb\",c\n1,2", "a,b\n1,\"\n", "\t\n1\t2", ",,\n,,"};
  for (size_t i = 0; i < cs0.size(); i++) for (int hdr = 0; hdr < 2; hdr++) { out.begin("csvfix-" + std::to_string(i) + (hdr ? "h" : "")); csv(cs0[i], ',', hdr, true, false, true, 0); csv(cs0[i], ',', hdr, true, false, false, 2); csv(cs0[i], '\t', hdr, true, false, false, 1); csv(cs0[i], '\t', hdr, false, true, false, 0); out.end(); }
  // unreadable files
  for (int k = 0; k < 3; k++) { out.begin("nofile-" + std::to_string(k)); S name = k == 0 ? "no-such-file" : k == 1 ? "." : "no/dir/file.json";
    auto rec = [&](auto f) { Dataset d; S err = guarded([&] { d = f(); }); Ev e("missing-file"); put(e, err, d); out.ev(e); };
    rec([&] { return LoadCSV(name); }); rec([&] { return LoadTSV(name); }); rec([&] { return LoadJSON(name); }); rec([&] { return LoadData(name); });
    auto recs = [&](const LoadResult& L) { Ev e("missing-file"); put(e, L.success ? "" : "failed", L.data); out.ev(e); };
    recs(LoadCSVSafe(name)); recs(LoadTSVSafe(name)); recs(LoadJSONSafe(name)); out.end(); }
  out.close(); return 0;
}
