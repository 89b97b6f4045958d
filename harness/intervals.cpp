// C07: records the behaviour of mml/base/Intervals.h
#include <memory>
#include "vp.h"
#include "base/Intervals.h"
using namespace MML; using namespace vp;
struct D { double lo; char lt; double hi; char ut; double hole, step; };   // descriptor, also the JSON form
static std::string jd(const D& d) {
  std::string s = "{\"lo\":" + js(d.lo) + ",\"lt\":\"" + d.lt + "\",\"hi\":" + js(d.hi) + ",\"ut\":\"" + d.ut + "\",\"hole\":" + js(d.hole) + ",\"step\":" + js(d.step) + "}";
  return s;
}
typedef std::shared_ptr<BaseInterval> P;
static P mk(const D& d) {
  if (d.step != 0) {
    if (d.lt == 'I') return std::make_shared<CompleteRWithReccuringPointHoles>(d.hole, d.step);
    return std::make_shared<ClosedIntervalWithReccuringPointHoles>(d.lo, d.hi, d.hole, d.step);
  }
  if (d.lt == 'I' && d.ut == 'I') return std::make_shared<CompleteRInterval>();
  if (d.lt == 'I') { if (d.ut == 'C') return std::make_shared<NegInfToClosedInterval>(d.hi); return std::make_shared<NegInfToOpenInterval>(d.hi); }
  if (d.ut == 'I') { if (d.lt == 'C') return std::make_shared<ClosedToInfInterval>(d.lo); return std::make_shared<OpenToInfInterval>(d.lo); }
  if (d.lt == 'O' && d.ut == 'O') return std::make_shared<OpenInterval>(d.lo, d.hi);
  if (d.lt == 'O') return std::make_shared<OpenClosedInterval>(d.lo, d.hi);
  if (d.ut == 'O') return std::make_shared<ClosedOpenInterval>(d.lo, d.hi);
  return std::make_shared<ClosedInterval>(d.lo, d.hi);
}
static void addTo(Interval& c, const D& d) {
  if (d.step != 0) { if (d.lt == 'I') c.AddInterval(CompleteRWithReccuringPointHoles(d.hole, d.step)); else c.AddInterval(ClosedIntervalWithReccuringPointHoles(d.lo, d.hi, d.hole, d.step)); return; }
  if (d.lt == 'I' && d.ut == 'I') { c.AddInterval(CompleteRInterval()); return; }
  if (d.lt == 'I') { if (d.ut == 'C') c.AddInterval(NegInfToClosedInterval(d.hi)); else c.AddInterval(NegInfToOpenInterval(d.hi)); return; }
  if (d.ut == 'I') { if (d.lt == 'C') c.AddInterval(ClosedToInfInterval(d.lo)); else c.AddInterval(OpenToInfInterval(d.lo)); return; }
  if (d.lt == 'O' && d.ut == 'O') c.AddInterval(OpenInterval(d.lo, d.hi));
  else if (d.lt == 'O') c.AddInterval(OpenClosedInterval(d.lo, d.hi));
  else if (d.ut == 'O') c.AddInterval(ClosedOpenInterval(d.lo, d.hi));
  else c.AddInterval(ClosedInterval(d.lo, d.hi));
}
static std::vector<double> crit(std::vector<D> v) {
  std::vector<double> p;
  for (auto& d : v) { if (d.lt != 'I') p.push_back(d.lo); if (d.ut != 'I') p.push_back(d.hi); }
  std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.empty()) p.push_back(0);
  return p;
}
static std::vector<double> probes(const std::vector<double>& p) {
  std::vector<double> q;
  q.push_back(-1e200); q.push_back(p[0] - 1);
  for (size_t i = 0; i < p.size(); i++) {
    q.push_back(std::nextafter(p[i], -1e308)); q.push_back(p[i]); q.push_back(std::nextafter(p[i], 1e308));
    if (i + 1 < p.size()) q.push_back((p[i] + p[i + 1]) / 2);
  }
  q.push_back(p.back() + 1); q.push_back(1e200);
  return q;
}
template <class C> static std::string qs(const C& c, const std::vector<double>& q) {
  std::string s = "[";
  for (size_t i = 0; i < q.size(); i++) { if (i) s += ","; s += "[" + js(q[i]) + "," + js((bool)c.contains(q[i])) + "]"; }
  return s + "]";
}
static std::string jl(const std::vector<D>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += jd(v[i]); } return s + "]"; }

static Out out; static int cnt = 0;
static std::string nid(const char* p) { return std::string(p) + std::to_string(cnt++); }
static void opEv(const char* op, const D& a, const D& b, const Interval& r) {
  auto p = crit({a, b});
  out.ev(Ev(op).kv("a", Raw{jd(a)}).kv("b", Raw{jd(b)}).kv("pts", p).kv("q", Raw{qs(r, probes(p))}).kv("lo", r.getLowerBound()).kv("hi", r.getUpperBound()).kv("len", r.getLength()).kv("meas", r.getMeasure()));
}
static void simple(const D& d) {
  out.begin(nid("simple")); P p = mk(d); std::vector<double> c = crit({d}), q;
  if (d.step == 0) q = probes(c);
  else { for (double x = c[0] - 1; x <= c.back() + 1; x += 0.125) q.push_back(x); }   // exact multiples only: the hole test has a documented tolerance
  out.ev(Ev("simple").kv("a", Raw{jd(d)}).kv("q", Raw{qs(*p, q)}).kv("lo", p->getLowerBound()).kv("hi", p->getUpperBound()).kv("len", p->getLength()).kv("meas", p->getMeasure()).kv("cont", (bool)p->isContinuous()));
  out.end();
}
static void pair(const char* pre, const D& a, const D& b) {
  out.begin(nid(pre)); P pa = mk(a), pb = mk(b);
  opEv("inter", a, b, Interval::Intersection(*pa, *pb));
  opEv("union", a, b, Interval::Union(*pa, *pb));
  opEv("diff", a, b, Interval::Difference(*pa, *pb));
  opEv("compl", a, b, Interval::Complement(*pa));
  out.end();
}
static void rel(const char* pre, const std::vector<D>& parts, const D& b) {
  out.begin(nid(pre)); Interval c; for (auto& d : parts) addTo(c, d);
  P pb = mk(b);
  out.ev(Ev("rel").kv("parts", Raw{jl(parts)}).kv("b", Raw{jd(b)}).kv("contains", (bool)c.contains(*pb)).kv("intersects", (bool)c.intersects(*pb)));
  out.end();
}
static void comp(const std::vector<D>& parts) {
  out.begin(nid("comp")); Interval c; for (auto& d : parts) addTo(c, d);
  std::vector<D> fin; for (auto& d : parts) fin.push_back(d);
  std::vector<double> q; auto p = crit(fin);
  bool holes = false; for (auto& d : parts) holes |= d.step != 0;
  if (!holes) q = probes(p); else for (double x = p[0] - 1; x <= p.back() + 1; x += 0.25) q.push_back(x);
  out.ev(Ev("comp").kv("parts", Raw{jl(parts)}).kv("q", Raw{qs(c, q)}).kv("lo", c.getLowerBound()).kv("hi", c.getUpperBound()).kv("len", c.getLength()).kv("meas", c.getMeasure()));
  out.end();
}
static void cover(const char* pre, const D& d, int n) {
  out.begin(nid(pre)); P p = mk(d); std::vector<Real> v{1, 2, 3}; p->GetEquidistantCovering(n, v);
  out.ev(Ev("cover").kv("a", Raw{jd(d)}).kv("n", n).kv("pts", v)); out.end();
}
static void ccover(const char* pre, const std::vector<D>& parts, int n) {
  out.begin(nid(pre)); Interval c; for (auto& d : parts) addTo(c, d);
  std::vector<Real> v{1, 2, 3}; c.GetEquidistantCovering(n, v);
  out.ev(Ev("ccover").kv("parts", Raw{jl(parts)}).kv("n", n).kv("pts", v)); out.end();
}
int main(int ac, char** av) {
  Args A = args(ac, av); Rng R(A.seed); out.open(A.out.c_str());
  // every interval over a small grid
  auto all = [&](const std::vector<double>& g) {
    std::vector<D> S;
    for (double lo : g) for (double hi : g) if (lo < hi) for (char lt : {'O', 'C'}) for (char ut : {'O', 'C'}) S.push_back({lo, lt, hi, ut, 0, 0});
    for (double x : g) { S.push_back({x, 'C', x, 'C', 0, 0}); for (char t : {'O', 'C'}) { S.push_back({0, 'I', x, t, 0, 0}); S.push_back({x, t, 0, 'I', 0, 0}); } }
    S.push_back({0, 'I', 0, 'I', 0, 0});
    return S;
  };
  std::vector<D> S = all(A.thorough() ? std::vector<double>{-2, -0.5, 0, 1, 3} : std::vector<double>{-1.5, 0, 2, 3});
  for (auto& a : S) simple(a);
  for (auto& a : S) for (auto& b : S) pair("pair", a, b);
  // random ends, non-representable fractions, scales
  int nr = A.thorough() ? 4000 : 400;
  auto rd = [&](double sc) {
    D d; int k = R.range(0, 9); double x = std::round(R.uni(-10, 10)) * sc, y = std::round(R.uni(-10, 10)) * sc; if (x > y) std::swap(x, y);
    char lt = R.chance(1, 2) ? 'O' : 'C', ut = R.chance(1, 2) ? 'O' : 'C';
    if (x == y) { lt = ut = 'C'; }
    d = {x, lt, y, ut, 0, 0};
    if (k == 0) d = {0, 'I', y, ut, 0, 0}; else if (k == 1) d = {x, lt, 0, 'I', 0, 0};
    return d;
  };
  std::vector<double> scs{1, 0.1, 1e-3, 1e5, 1.0 / 3, 1e-9};
  for (int i = 0; i < nr; i++) { double sc = R.pick(scs); D a = rd(sc), b = rd(sc); pair("rpair", a, b); }
  // composites
  std::vector<D> F; for (auto& d : S) if (d.lt != 'I' && d.ut != 'I') F.push_back(d);
  comp({});
  for (int i = 0; i < (A.thorough() ? 3000 : 400); i++) {
    std::vector<D> parts; int k = R.range(1, 4); for (int j = 0; j < k; j++) parts.push_back(R.pick(F));
    if (R.chance(1, 4)) { D x{0, 'C', 2, 'C', R.range(0, 4) * 0.25, R.range(1, 4) * 0.5}; parts[0] = x; }
    comp(parts);
  }
  for (auto& a : S) for (auto& b : S) rel("rel", {a}, b);
  for (int i = 0; i < (A.thorough() ? 3000 : 400); i++) { std::vector<D> parts; int k = R.range(0, 4); for (int j = 0; j < k; j++) parts.push_back(R.pick(S)); rel("rel", parts, R.pick(S)); }
  // holes
  for (int a = 0; a < 8; a++) for (int st = 1; st <= 8; st++) { simple({-1, 'C', 3, 'C', a * 0.25 - 1, st * 0.25}); simple({0, 'I', 0, 'I', a * 0.25 - 1, st * 0.25}); simple({-1, 'C', 3, 'C', a * 0.25, st * -0.25}); }
  // coverings
  for (auto& d : S) if (d.lt == 'I' || d.ut == 'I' || d.lo < d.hi) for (int n : {-1, 0, 1, 2, 3, 5, 11}) cover("cover", d, n);
  for (int i = 0; i < nr; i++) { double sc = R.pick(scs), lo = R.range(-100, 100) * sc, hi = lo + R.range(1, 100) * sc; cover("cover", {lo, R.chance(1, 2) ? 'O' : 'C', hi, R.chance(1, 2) ? 'O' : 'C', 0, 0}, R.range(1, 40)); }
  std::vector<std::vector<D>> comps = {{{0, 'C', 1, 'C', 0, 0}, {2, 'O', 5, 'C', 0, 0}}, {{0, 'O', 1, 'O', 0, 0}, {1, 'O', 2, 'O', 0, 0}, {3, 'C', 4, 'O', 0, 0}}, {{-3, 'C', 3, 'O', 0, 0}}};
  for (auto& c : comps) for (int n : {-1, 0, 1, 2, 3, 4, 7, 10, 33}) ccover("ccover", c, n);
  // set operations on intervals with holes (see known_findings.json)
  { D H{0, 'C', 4, 'C', 1, 1}, H2{0, 'I', 0, 'I', 1, 1}, B{-1, 'C', 3, 'C', 0, 0};
    auto hp = [&](const char* op, const D& a, const D& b, const Interval& r) {
      std::vector<double> q; for (double x = -2; x <= 6; x += 0.25) q.push_back(x); auto p = crit({a, b});
      out.begin(std::string("holes-") + op);
      out.ev(Ev(op).kv("a", Raw{jd(a)}).kv("b", Raw{jd(b)}).kv("pts", p).kv("q", Raw{qs(r, q)}).kv("lo", r.getLowerBound()).kv("hi", r.getUpperBound()).kv("len", r.getLength()).kv("meas", r.getMeasure())); out.end(); };
    hp("inter", H, B, Interval::Intersection(*mk(H), *mk(B)));
    hp("union", B, H, Interval::Union(*mk(B), *mk(H)));
    hp("diff", B, H, Interval::Difference(*mk(B), *mk(H)));
    hp("compl", H2, H2, Interval::Complement(*mk(H2)));
    cover("holes-cover", H, 9);
  }
  out.close();
}
