// C27: records densities, cumulative values, tail values, quantiles and moments of the distributions
#include "vp.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/Distributions.h"
using namespace MML; using namespace vp; namespace S = MML::Statistics;
typedef std::string Str; typedef std::vector<double> D; typedef std::function<double(double)> F;
static Out out;
struct Api { F pdf, cdf, inv, sf, two, crit; std::function<double()> mean, var, sd; };   // empty = not offered
static Str make(const Str& k, const D& p, Api& a) {
  return guarded([&] {
    if (k == "normal") { S::NormalDistribution d(p[0], p[1]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.inv = [d](double x) { return d.inverseCdf(x); }; a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; a.sd = [d] { return d.stddev(); }; }
    if (k == "stdnormal") { typedef S::StandardNormal N; a.pdf = N::pdf; a.cdf = N::cdf; a.inv = N::inverseCdf; a.sf = N::sf; a.two = N::twoTailedPValue; }
    if (k == "t") { S::TDistribution d((int)p[0]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.inv = [d](double x) { return d.inverseCdf(x); }; a.sf = [d](double x) { return d.sf(x); }; a.two = [d](double x) { return d.twoTailedPValue(x); }; a.crit = [d](double x) { return d.criticalValue(x); }; a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; }
    if (k == "chi2") { S::ChiSquareDistribution d((int)p[0]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.sf = [d](double x) { return d.rightTailPValue(x); }; a.crit = [d](double x) { return d.criticalValue(x); }; a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; a.sd = [d] { return d.stddev(); }; }
    if (k == "f") { S::FDistribution d((int)p[0], (int)p[1]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.sf = [d](double x) { return d.rightTailPValue(x); }; a.crit = [d](double x) { return d.criticalValue(x); }; a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; }
#define GEN(nm, T) if (k == nm) { S::T d(p[0], p[1]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.inv = [d](double x) { return d.inverseCdf(x); };
    GEN("cauchy", CauchyDistribution) }
#define GENM(nm, T) GEN(nm, T) a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; }
    GENM("logistic", LogisticDistribution) GENM("uniform", UniformDistribution) GENM("gamma", GammaDistribution) GENM("beta", BetaDistribution) GENM("weibull", WeibullDistribution) GENM("pareto", ParetoDistribution) GENM("lognormal", LogNormalDistribution)
    if (k == "exp") { S::ExponentialDistribution d(p[0]); a.pdf = [d](double x) { return d.pdf(x); }; a.cdf = [d](double x) { return d.cdf(x); }; a.inv = [d](double x) { return d.inverseCdf(x); }; a.mean = [d] { return d.mean(); }; a.var = [d] { return d.variance(); }; }
  });
}
static const double NaN = std::nan("");
static Str call(const F& f, double x) { if (!f) return "{\"has\":false}"; double v = 0; Str e = guarded([&] { v = f(x); }); return Ev("v").kv("has", true).kv("err", e).kv("v", v).str(); }
static Str call0(const std::function<double()>& f) { if (!f) return "{\"has\":false}"; double v = 0; Str e = guarded([&] { v = f(); }); return Ev("v").kv("has", true).kv("err", e).kv("v", v).str(); }
static D params(const Str& k, Rng& R, bool big) {
  auto sh = [&] { return R.pick(D{0.05, 0.3, 0.5, 1, 1, 1.5, 2, 3, 10, R.uni(0.1, 5), R.uni(5, 60), big ? 400.0 : 7.0, big ? R.uni(500, 5000) : 4.0}); };
  auto sc = [&] { return R.pick(D{1, 0.5, 2, R.uni(0.1, 5), 1e-6, 1e5}); }; auto lo = [&] { return R.pick(D{0, 0, 1, -3.5, R.uni(-10, 10), 1e4}); };
  auto df = [&] { return (double)R.pick(std::vector<int>{1, 1, 2, 3, 4, 5, 6, 9, R.range(2, 40), R.range(2, 40), 100, big ? 1000 : 30, big ? 700 : 17}); };
  if (k == "stdnormal") return {}; if (k == "t" || k == "chi2") return {df()}; if (k == "f") return {df(), df()}; if (k == "exp") return {sc()};
  if (k == "uniform") { double a = lo(); return {a, a + sc()}; } if (k == "lognormal") return {R.pick(D{0, 1, -2, R.uni(-3, 3)}), R.pick(D{1, 0.25, 2, R.uni(0.05, 3)})};
  if (k == "normal" || k == "cauchy" || k == "logistic") return {lo(), sc()}; if (k == "beta") return {std::min(sh(), 700.0), std::min(sh(), 700.0)};
  if (k == "weibull") return {R.pick(D{0.3, 0.5, 1, 1.5, 2, 5, 20, R.uni(0.2, 8)}), sc()}; if (k == "pareto") return {R.pick(D{0.5, 1, 1.5, 2, 2.5, 3, 10, 50, 150}), R.pick(D{1, 0.01, 1000, R.uni(0.1, 10), 1e5})};
  return {sh(), sc()};
}
static std::vector<D> bad(const Str& k) {
  double I = NaN; if (k == "t" || k == "chi2") return {{0}, {-1}, {-100}}; if (k == "f") return {{0, 3}, {3, 0}, {-1, 2}, {2, -1}}; if (k == "exp") return {{0}, {-1}, {I}};
  if (k == "uniform") return {{1, 1}, {2, 1}, {0, I}, {I, 1}}; if (k == "normal" || k == "cauchy" || k == "logistic" || k == "lognormal") return {{0, 0}, {0, -1}, {0, I}, {0, -0.0}}; if (k == "stdnormal") return {};
  return {{0, 1}, {-1, 1}, {1, 0}, {1, -1}, {I, 1}, {1, I}};
}
int main(int ac, char** av) {
  Args a = args(ac, av); Rng R(a.seed); out.open(a.out.c_str()); bool th = a.thorough(); int N = th ? 60 : 7;
  std::vector<Str> ks = {"normal", "stdnormal", "t", "chi2", "f", "cauchy", "exp", "logistic", "uniform", "gamma", "beta", "weibull", "pareto", "lognormal"};
  for (auto& k : ks) for (int i = 0; i < N; i++) { out.begin(k + std::to_string(i)); D p = params(k, R, i % 3 == 2); if (i < 3 && (k == "t" || k == "chi2")) p[0] = i + 1; if (p.size() == 2 && (k == "beta" || k == "gamma" || k == "weibull")) { double o = R.uni(1.3, 6); if (i == 0) p = {1, k == "beta" ? o : p[1]}; if (i == 1) p = k == "beta" ? D{o, 1} : D{o, p[1]}; if (i == 3) p[0] = R.uni(0.2, 0.95); if (i == 4 && k == "beta") p = {R.uni(1.1, 4), R.uni(0.2, 0.95)}; } if (i < 3 && k == "f") p = {i + 1.0, (double)R.range(1, 4)};
    Api A; Str e = make(k, p, A); Ev m("make"); m.kv("k", k).kv("p", p).kv("err", e); out.ev(m); if (!e.empty()) { out.end(); continue; }
    // points: quantiles, tails, ends of the support, branch points of the series and their neighbours
    D xs; double c = p.size() ? p[0] : 0, s = p.size() > 1 ? p[1] : 1; if (k == "t" || k == "stdnormal") { c = 0; s = 1; }
    if (k == "normal" || k == "cauchy" || k == "logistic" || k == "t" || k == "stdnormal") { for (double z : {0.0, 0.5, -0.5, 1.0, -2.0, 3.0, -4.0, 6.0, -9.0, 30.0, -40.0, 1e-7, -1e-9, 800.0, -800.0, 1e10, R.uni(-3, 3), R.uni(-3, 3), R.uni(-8, 8)}) xs.push_back(c + s * z); if (k == "t") for (double f : {1.0, 0.999999, 1.000001}) xs.push_back(f * std::sqrt(p[0])); }
    else { double cen = k == "chi2" ? p[0] : k == "gamma" ? p[0] * p[1] : k == "exp" ? 1 / p[0] : k == "f" ? 1 : k == "beta" ? p[0] / (p[0] + p[1]) : k == "uniform" ? 0 : k == "lognormal" ? std::exp(p[0]) : p[1];
      for (double f : {0.0, 1.0, 0.5, 0.1, 1e-3, 1e-8, 2.0, 1.3, 0.8, 4.0, 10.0, 100.0, 1e4, -1.0, R.uni(0, 3), R.uni(0, 3), R.uni(0.9, 1.1)}) xs.push_back(cen * f);
      if (k == "uniform") for (double f : {0.0, 1.0, 0.25, 0.5, -0.1, 1.1, R.unit()}) xs.push_back(p[0] + f * (p[1] - p[0])); if (k == "uniform") xs.push_back(p[1]); if (k == "beta") for (double f : {1.0, 0.999999, 1 - 1e-12, 0.5, R.unit(), 1.5}) xs.push_back(f);
      if (k == "chi2") for (int d = -1; d <= 1; d++) xs.push_back(p[0] + 2 + d * 1e-9 * p[0]); if (k == "gamma") for (int d = -1; d <= 1; d++) xs.push_back((p[0] + 1) * p[1] * (1 + d * 1e-12)); if (k == "beta") for (int d = -1; d <= 1; d++) xs.push_back((p[0] + 1) / (p[0] + p[1] + 2) * (1 + d * 1e-14));
      if (k == "f") { double y = (p[0] / 2 + 1) / ((p[0] + p[1]) / 2 + 2); for (int d = -1; d <= 1; d++) xs.push_back(p[1] * y / (p[0] * (1 - y)) * (1 + d * 1e-12)); xs.push_back(1e9); }
      if (k == "pareto") xs.push_back(std::nextafter(p[1], 0)); }
    for (double x : xs) { Ev v("pt"); v.kv("k", k).kv("p", p).kv("x", x).kv("pdf", Raw{call(A.pdf, x)}).kv("cdf", Raw{call(A.cdf, x)}).kv("sf", Raw{call(A.sf, x)}).kv("two", Raw{call(A.two, x)}); out.ev(v); }
    D ps = {0.5, 0.025, 0.02425, 0.9, 0.97575, 0.975, 0.999, 1e-3, 1e-5, 1 - 1e-6, R.unit(), R.unit(), 0.5 + 1e-9, 0, 1, -0.1, 1.1, NaN}; if (i % 2) { ps.push_back(1e-9); ps.push_back(0.25); ps.push_back(R.unit()); }
    for (double q : ps) { if (A.inv) { Ev v("inv"); v.kv("k", k).kv("p", p).kv("q", q).kv("x", Raw{call(A.inv, q)}); out.ev(v); } if (A.crit) { Ev v("crit"); v.kv("k", k).kv("p", p).kv("q", q).kv("x", Raw{call(A.crit, q)}); out.ev(v); } }
    { Ev v("mom"); v.kv("k", k).kv("p", p).kv("mean", Raw{call0(A.mean)}).kv("var", Raw{call0(A.var)}).kv("sd", Raw{call0(A.sd)}); out.ev(v); }
    // a dense walk: the cumulative function never decreases
    { D w = xs, y; double a0 = *std::min_element(xs.begin(), xs.end()), b0 = *std::max_element(xs.begin(), xs.end()); for (int j = 0; j < 60; j++) { double x = xs[R.range(0, (int)xs.size() - 1)]; w.push_back(x * (1 + R.uni(-1, 1) * std::pow(10.0, -R.range(1, 15)))); } (void)a0; (void)b0; std::sort(w.begin(), w.end()); D x2; for (double x : w) { double v = 0; Str er = guarded([&] { v = A.cdf(x); }); if (er.empty()) { x2.push_back(x); y.push_back(v); } } Ev v("walk"); v.kv("k", k).kv("p", p).kv("x", x2).kv("y", y); out.ev(v); }
    if (i == 0) for (auto& b : bad(k)) { Api B; Str er = make(k, b, B); Ev v("make"); v.kv("k", k).kv("p", b).kv("err", er); out.ev(v); }
    out.end(); }
  out.close(); return 0;
}
