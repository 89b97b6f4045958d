// C26: records descriptive and rank statistics, confidence intervals and tests
#include "vp.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/StatisticsRank.h"
#include "algorithms/Statistics/StatisticsHypothesis.h"
#include "algorithms/Statistics/StatisticsConfidence.h"
using namespace MML; using namespace vp; namespace S = MML::Statistics;
typedef std::string Str; typedef Vector<Real> V; typedef Matrix<Real> Mt;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jv(const V& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Str jm(const Mt& m) { Str s = "["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + num(m(i, j)); s += "]"; } return s + "]"; }
template <class F> static void one(const Str& op, const V& x, F f, double p = 0, bool hasP = false) {
  V c = x; std::vector<double> r; Str e = guarded([&] { r = f(c); });
  bool same = c.size() == x.size(); for (int i = 0; same && i < (int)x.size(); i++) same = c[i] == x[i] || (c[i] != c[i] && x[i] != x[i]);
  Ev v(op); v.kv("x", Raw{jv(x)}); if (hasP) v.kv("p", p); v.kv("err", e).kv("r", r).kv("same", same); out.ev(v);
}
template <class F> static void two(const Str& op, const V& x, const V& y, F f) {
  V c = x, d = y; std::vector<double> r; Str e = guarded([&] { r = f(c, d); });
  bool same = true; for (int i = 0; same && i < (int)x.size(); i++) same = c[i] == x[i]; for (int i = 0; same && i < (int)y.size(); i++) same = d[i] == y[i];
  Ev v(op); v.kv("x", Raw{jv(x)}).kv("y", Raw{jv(y)}).kv("err", e).kv("r", r).kv("same", same); out.ev(v);
}
typedef std::vector<double> D;
static void single(const V& x, Rng& R) {
  one("mean", x, [](V& v) { return D{S::Avg(v)}; }); one("mean", x, [](V& v) { return D{S::Mean(v)}; });
  one("avgvar", x, [](V& v) { Real a, b; S::AvgVar(v, a, b); return D{a, b}; }); one("avgstd", x, [](V& v) { Real a, b; S::AvgStdDev(v, a, b); return D{a, b}; });
  one("var", x, [](V& v) { return D{S::Variance(v)}; }); one("std", x, [](V& v) { return D{S::StdDev(v)}; });
  one("moments", x, [](V& v) { Real a, b, c, d, e, f; S::Moments(v, a, b, c, d, e, f); return D{a, b, c, d, e, f}; });
  one("median", x, [](V& v) { return D{S::Median(v)}; }); one("range", x, [](V& v) { return D{S::Range(v)}; }); one("iqr", x, [](V& v) { return D{S::IQR(v)}; });
  one("quartiles", x, [](V& v) { Real a, b, c; S::Quartiles(v, a, b, c); return D{a, b, c}; }); one("minmax", x, [](V& v) { Real a, b; S::MinMax(v, a, b); return D{a, b}; });
  one("mode", x, [](V& v) { return D{S::Mode(v)}; }); one("mad", x, [](V& v) { return D{S::MAD(v)}; });
  one("geo", x, [](V& v) { return D{S::GeometricMean(v)}; }); one("harm", x, [](V& v) { return D{S::HarmonicMean(v)}; });
  int n = x.size(); std::vector<double> ps = {0, 100, 50, 25, 75, 10, 90, R.uni(0, 100), -1, 100.5, std::nan("")}; for (int k = 0; k < 2; k++) if (n > 1) ps.push_back(100.0 * R.range(0, n - 1) / (n - 1));
  for (double p : ps) one("pct", x, [p](V& v) { return D{S::Percentile(v, p)}; }, p, true);
  for (double p : {0.0, 10.0, 25.0, 49.999, 50.0, -1.0, (double)R.range(1, 49), std::nan(""), R.uni(0, 50)}) one("trim", x, [p](V& v) { return D{S::TrimmedMean(v, p)}; }, p, true);
  one("ranks", x, [](V& v) { V r = S::ComputeRanks(v); D d; for (int i = 0; i < (int)r.size(); i++) d.push_back(r[i]); return d; });
}
static void pairOps(const V& x, const V& y) {
  two("cov", x, y, [](V& a, V& b) { return D{S::Covariance(a, b)}; }); two("cor", x, y, [](V& a, V& b) { return D{S::PearsonCorrelation(a, b)}; });
  two("r2", x, y, [](V& a, V& b) { return D{S::RSquared(a, b)}; });
  two("cortest", x, y, [](V& a, V& b) { auto r = S::PearsonCorrelationWithTest(a, b); return D{r.r, r.tStatistic, (double)r.degreesOfFreedom}; });
  two("spear", x, y, [](V& a, V& b) { return D{S::SpearmanCorrelation(a, b)}; }); two("kend", x, y, [](V& a, V& b) { return D{S::KendallCorrelation(a, b)}; });
  two("speartest", x, y, [](V& a, V& b) { auto r = S::SpearmanCorrelationWithTest(a, b); return D{r.rho, r.zScore, (double)r.n}; });
  two("kendtest", x, y, [](V& a, V& b) { auto r = S::KendallCorrelationWithTest(a, b); return D{r.rho, r.zScore, (double)r.n}; });
}
static void weighted(const V& x, const V& w) { two("wmean", x, w, [](V& a, V& b) { return D{S::WeightedMean(a, b)}; }); two("wvar", x, w, [](V& a, V& b) { return D{S::WeightedVariance(a, b)}; }); }
static void matrices(const Mt& m) {
  for (int k = 0; k < 2; k++) { Mt r; Str e = guarded([&] { r = k ? S::CorrelationMatrix(m) : S::CovarianceMatrix(m); }); std::vector<Str> cols; Str c = "["; for (int j = 0; j < m.cols(); j++) { V v(m.rows()); for (int i = 0; i < m.rows(); i++) v[i] = m(i, j); c += (j ? "," : "") + jv(v); } c += "]";
    Ev v(k ? "cormat" : "covmat"); v.kv("cols", Raw{c}).kv("n", m.rows()).kv("err", e).kv("m", Raw{jm(r)}); out.ev(v); }
}
static Str jt(const S::HypothesisTestResult& r) { return Ev("t").kv("t", r.testStatistic).kv("p", r.pValue).kv("crit", r.criticalValue).kv("rej", r.rejectNull).kv("conf", r.confidenceLevel).kv("df", r.degreesOfFreedom).str(); }
static Str jt(const S::HypothesisTestDetailedResult& r) { return Ev("t").kv("t", r.testStatistic).kv("p", r.pValue).kv("crit", r.criticalValue).kv("rej", r.rejectNull).kv("conf", r.confidenceLevel).kv("df", r.degreesOfFreedom).str(); }
static Str jg(const std::vector<V>& g) { Str s = "["; for (size_t i = 0; i < g.size(); i++) s += (i ? "," : "") + jv(g[i]); return s + "]"; }
template <class F, class G> static void test(const Str& kind, const std::vector<V>& g, double mu, double alpha, int df2, F f, G detail) {
  S::HypothesisTestResult r; Str e = guarded([&] { r = f(); }); double pref = 0, cref = 0; Str er;
  if (e.empty()) er = guarded([&] { if (kind == "anova") { S::FDistribution d(r.degreesOfFreedom, df2); pref = d.rightTailPValue(r.testStatistic); cref = d.criticalValue(alpha); } else if (kind == "gof" || kind == "indep") { S::ChiSquareDistribution d(r.degreesOfFreedom); pref = d.rightTailPValue(r.testStatistic); cref = d.criticalValue(alpha); } else { S::TDistribution d(r.degreesOfFreedom); pref = d.twoTailedPValue(r.testStatistic); cref = d.criticalValue(alpha); } });
  S::HypothesisTestDetailedResult d; S::StatisticsConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; Str ed = guarded([&] { d = detail(c); });
  S::HypothesisTestDetailedResult d2; S::StatisticsConfig c2; Str ed2 = guarded([&] { d2 = detail(c2); });
  Ev v("test"); v.kv("kind", kind).kv("g", Raw{jg(g)}).kv("mu", mu).kv("alpha", alpha).kv("err", e).kv("r", Raw{jt(r)}).kv("pref", pref).kv("cref", cref).kv("eref", er).kv("ed", ed).kv("ok", d.IsSuccess()).kv("d", Raw{jt(d)}).kv("ed2", ed2).kv("d2", Raw{jt(d2)}); out.ev(v);
}
static void tests(const V& x, const V& y, const std::vector<V>& g, const V& ex, Rng& R) {
  for (double al : {0.05, R.pick(D{0.01, 0.1, 0.5, 0.001, 0.0, 1.0, std::nan("")})}) { double mu = R.chance(1, 2) ? R.range(-3, 3) : R.uni(-2, 2); if (R.chance(1, 4) && x.size()) mu = x[0];
    test("one", {x}, mu, al, 0, [&] { return S::OneSampleTTest(x, mu, al); }, [&](const S::StatisticsConfig& c) { return S::OneSampleTTestDetailed(x, mu, al, c); });
    test("two", {x, y}, 0, al, 0, [&] { return S::TwoSampleTTest(x, y, al); }, [&](const S::StatisticsConfig& c) { return S::TwoSampleTTestDetailed(x, y, al, c); });
    test("welch", {x, y}, 0, al, 0, [&] { return S::WelchTTest(x, y, al); }, [&](const S::StatisticsConfig& c) { return S::WelchTTestDetailed(x, y, al, c); });
    test("paired", {x, y}, 0, al, 0, [&] { return S::PairedTTest(x, y, al); }, [&](const S::StatisticsConfig& c) { return S::PairedTTestDetailed(x, y, al, c); });
    int n = 0; for (auto& a : g) n += a.size();
    test("anova", g, 0, al, n - (int)g.size(), [&] { return S::OneWayANOVA(g, al); }, [&](const S::StatisticsConfig& c) { return S::OneWayANOVADetailed(g, al, c); });
    V o(x.size()); for (int i = 0; i < (int)x.size(); i++) o[i] = std::fabs(x[i]); V e = ex; if (R.chance(3, 4) && ex.size() == x.size()) { double a = 0, b = 0; for (int i = 0; i < (int)o.size(); i++) { a += o[i]; b += e[i]; } if (b > 0) for (int i = 0; i < (int)e.size(); i++) e[i] *= a / b; } if (R.chance(1, 10)) o = x;
    test("gof", {o, e}, 0, al, 0, [&] { return S::ChiSquareGoodnessOfFit(o, e, al); }, [&](const S::StatisticsConfig& c) { return S::ChiSquareGoodnessOfFitDetailed(o, e, al, c); });
    int a = R.range(1, 4), b = R.range(1, 4); Mt t(a, b); std::vector<V> rows; int z = R.range(0, 9); for (int i = 0; i < a; i++) { for (int j = 0; j < b; j++) t(i, j) = z == 0 && i == 0 ? 0 : z == 1 && j == b - 1 ? 0 : z == 2 ? R.range(-2, 9) : z == 3 ? 5 * (i + 1) : R.range(0, 30); rows.push_back(V(b)); for (int j = 0; j < b; j++) rows[i][j] = t(i, j); }
    test("indep", rows, 0, al, 0, [&] { return S::ChiSquareIndependence(t, al); }, [&](const S::StatisticsConfig& c) { return S::ChiSquareIndependenceDetailed(t, al, c); }); }
}
static Str jc(double e, double l, double u, double m, double c) { return Ev("c").kv("est", e).kv("lo", l).kv("hi", u).kv("marg", m).kv("conf", c).str(); }
template <class F, class G> static void ci(const Str& kind, const std::vector<V>& g, double conf, int df, F f, G detail) {
  Str r = jc(0, 0, 0, 0, 0), d = r; Str e = guarded([&] { auto c = f(); r = jc(c.estimate, c.lowerBound, c.upperBound, c.marginOfError, c.confidenceLevel); });
  double q = 0; Str eq = guarded([&] { if (df > 0) q = S::TDistribution(df).criticalValue(1 - conf); else { S::NormalDistribution n(0, 1); q = n.inverseCdf(1 - (1 - conf) / 2); } });
  S::StatisticsConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; bool ok = false; Str ed = guarded([&] { auto k = detail(c); ok = k.IsSuccess(); d = jc(k.estimate, k.lowerBound, k.upperBound, k.marginOfError, k.confidenceLevel); });
  Ev v("ci"); v.kv("kind", kind).kv("g", Raw{jg(g)}).kv("conf", conf).kv("err", e).kv("r", Raw{r}).kv("q", q).kv("ed", ed).kv("ok", ok).kv("d", Raw{d}); out.ev(v);
}
static void cis(const V& x, const V& y, Rng& R) {
  for (double c : {0.95, R.pick(D{0.9, 0.99, 0.5, 0.0, 1.0, std::nan("")})}) { int n = x.size(), m = y.size();
    ci("mean", {x}, c, std::max(1, n - 1), [&] { return S::ConfidenceIntervalMean(x, c); }, [&](const S::StatisticsConfig& k) { return S::ConfidenceIntervalMeanDetailed(x, c, k); });
    ci("diff", {x, y}, c, std::max(1, n + m - 2), [&] { return S::ConfidenceIntervalMeanDifference(x, y, c); }, [&](const S::StatisticsConfig& k) { return S::ConfidenceIntervalMeanDifferenceDetailed(x, y, c, k); });
    ci("paired", {x, y}, c, std::max(1, n - 1), [&] { return S::ConfidenceIntervalPairedDifference(x, y, c); }, [&](const S::StatisticsConfig& k) { return S::ConfidenceIntervalPairedDifferenceDetailed(x, y, c, k); });
    int t1 = R.range(0, 40), s1 = R.range(-1, t1 + 1), t2 = R.range(0, 40), s2 = R.range(-1, t2 + 1); if (R.chance(1, 4)) s1 = R.chance(1, 2) ? 0 : t1; V a(2), b(2); a[0] = s1; a[1] = t1; b[0] = s2; b[1] = t2;
    ci("prop", {a}, c, 0, [&] { return S::ConfidenceIntervalProportion(s1, t1, c); }, [&](const S::StatisticsConfig& k) { return S::ConfidenceIntervalProportionDetailed(s1, t1, c, k); });
    ci("propdiff", {a, b}, c, 0, [&] { return S::ConfidenceIntervalProportionDifference(s1, t1, s2, t2, c); }, [&](const S::StatisticsConfig& k) { return S::ConfidenceIntervalProportionDifferenceDetailed(s1, t1, s2, t2, c, k); }); }
}
static V sample(Rng& R, int n, int k) {
  V v(n); double c = R.pick(D{0.1, 1.0 / 3, 5, 0, 1e8 / 3, -0.7});
  for (int i = 0; i < n; i++) switch (k) { case 0: v[i] = R.range(-3, 3); break; case 1: v[i] = R.range(0, 9); break; case 2: v[i] = R.uni(-1, 1); break; case 3: v[i] = c; break; case 4: v[i] = 1e8 + R.range(0, 4) * 0.25; break; case 5: v[i] = R.uni(0.5, 3) * std::pow(10.0, R.range(-6, 6)); break; case 6: v[i] = R.range(1, 5) * 1e-15; break; case 7: v[i] = n - i; break; case 8: v[i] = R.range(1, 6) / 10.0; break; case 9: v[i] = c + (i == n / 2 ? 1 : 0); break; case 10: v[i] = 1e10 * R.range(-2, 2) + R.range(0, 1); break; default: v[i] = R.uni(0.1, 10); }
  return v;
}
int main(int ac, char** av) {
  Args a = args(ac, av); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 1500 : 170;
  for (int i = 0; i < N; i++) { out.begin("i" + std::to_string(i)); int n = i < 22 ? i / 4 : R.range(2, 9), k = i % 12; if (R.chance(1, 20)) n = R.range(10, 16); if (i % 37 == 36 && a.thorough()) n = 40;
    V x = sample(R, n, k), y = sample(R, R.chance(1, 14) ? n + 1 : n, R.chance(1, 3) ? k : R.range(0, 11)); if (R.chance(1, 8)) { y = x; double s = R.range(-2, 2); for (int j = 0; j < (int)y.size(); j++) y[j] *= s; }
    V w(R.chance(1, 15) ? n + 1 : n); int wk = R.range(0, 5); for (int j = 0; j < (int)w.size(); j++) w[j] = wk == 0 ? R.range(0, 2) : wk == 1 ? 1 : wk == 2 ? R.uni(0, 3) : wk == 3 ? 0 : wk == 4 ? R.range(-1, 4) : R.uni(0, 1.5 / std::max(1, n));
    int part = i % 3; if (n < 3) part = 3;
    if (part == 0 || part == 3) single(x, R);
    if (part == 1 || part == 3) { pairOps(x, y); weighted(x, w); int p = R.range(1, 3); Mt m(n, p); for (int j = 0; j < p; j++) { V c = sample(R, n, R.chance(1, 12) ? 3 : R.pick(std::vector<int>{0, 1, 2, 4, 5, 8, 11})); for (int q = 0; q < n; q++) m(q, j) = c[q]; } matrices(m); }
    if (part == 2 || part == 3) { std::vector<V> g; int q = R.range(1, 4), gk = R.range(0, 11); for (int j = 0; j < q; j++) g.push_back(sample(R, R.chance(1, 15) ? R.range(0, 1) : R.range(2, 5), gk == 10 ? 0 : gk)); V ex(R.chance(1, 15) ? n + 1 : n); for (int j = 0; j < (int)ex.size(); j++) ex[j] = R.chance(1, 40) ? 0 : R.range(1, 12); tests(x, y, g, ex, R); cis(x, y, R); }
    out.end(); }
  out.close(); return 0;
}
