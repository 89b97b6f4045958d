// Functions as expression trees: evaluated here with any arithmetic type, written to the trace as JSON,
// and given their exact meaning by spec/Expr.tla.
#ifndef VP_EXPR_H
#define VP_EXPR_H
#include "vp.h"
#include <memory>
namespace vp {
// value and derivative along one direction
struct Du { double v, d; Du(double a = 0, double b = 0) : v(a), d(b) {} };
inline Du operator+(Du a, Du b) { return {a.v + b.v, a.d + b.d}; }
inline Du operator-(Du a, Du b) { return {a.v - b.v, a.d - b.d}; }
inline Du operator-(Du a) { return {-a.v, -a.d}; }
inline Du operator*(Du a, Du b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline Du operator/(Du a, Du b) { double q = a.v / b.v; return {q, (a.d - q * b.d) / b.v}; }
inline bool operator<(Du a, Du b) { return a.v < b.v; }
inline bool operator>(Du a, Du b) { return a.v > b.v; }
inline Du sin(Du a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
inline Du cos(Du a) { return {std::cos(a.v), -std::sin(a.v) * a.d}; }
inline Du exp(Du a) { double e = std::exp(a.v); return {e, e * a.d}; }
inline Du log(Du a) { return {std::log(a.v), a.d / a.v}; }
inline Du sqrt(Du a) { double e = std::sqrt(a.v); return {e, a.d / (2 * e)}; }
inline Du atan(Du a) { return {std::atan(a.v), a.d / (1 + a.v * a.v)}; }
struct E {
  std::string op; double c = 0; int k = 0; std::vector<E> a;
  std::string json() const {
    if (op == "c") return "[\"c\"," + js(c) + "]";
    if (op == "x") return "[\"x\"," + std::to_string(k) + "]";
    std::string o = "[\"" + op + "\"";
    for (auto& e : a) o += "," + e.json();
    if (op == "pow") o += "," + std::to_string(k);
    return o + "]";
  }
  template <class T> T eval(const T* x) const {
    using std::sin; using std::cos; using std::exp; using std::log; using std::sqrt; using std::atan; using std::abs; using std::fabs;
    if (op == "c") return T(c);
    if (op == "x") return x[k - 1];
    T u = a[0].eval(x);
    switch (op[0]) {
      case '+': return u + a[1].eval(x);
      case '-': return u - a[1].eval(x);
      case '*': return u * a[1].eval(x);
      case '/': return u / a[1].eval(x);
    }
    if (op == "neg") return -u;
    if (op == "sin") return sin(u);
    if (op == "cos") return cos(u);
    if (op == "exp") return exp(u);
    if (op == "log") return log(u);
    if (op == "sqrt") return sqrt(u);
    if (op == "atan") return atan(u);
    if (op == "abs") return u < T(0) ? -u : u;
    if (op == "sgn") return T(u < T(0) ? -1 : u > T(0) ? 1 : 0);
    if (op == "pow") { T r(1); for (int i = 0; i < k; i++) r = r * u; return r; }
    T w = a[1].eval(x);
    if (op == "min") return u < w ? u : w;
    return u < w ? w : u;
  }
  template <class T> T operator()(T x) const { return eval<T>(&x); }
  double partial(const double* x, int n, int i) const { std::vector<Du> y(x, x + n); y[i].d = 1; return eval<Du>(y.data()).d; }
};
inline std::string js(const E& e) { return e.json(); }
inline std::string js(const std::vector<E>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i].json(); } return o + "]"; }
inline E C(double c) { E e; e.op = "c"; e.c = c; return e; }
inline E X(int k = 1) { E e; e.op = "x"; e.k = k; return e; }
inline E un(const std::string& o, const E& a) { E e; e.op = o; e.a = {a}; return e; }
inline E bi(const std::string& o, const E& a, const E& b) { E e; e.op = o; e.a = {a, b}; return e; }
inline E operator+(const E& a, const E& b) { return bi("+", a, b); }
inline E operator-(const E& a, const E& b) { return bi("-", a, b); }
inline E operator*(const E& a, const E& b) { return bi("*", a, b); }
inline E operator/(const E& a, const E& b) { return bi("/", a, b); }
inline E pw(const E& a, int k) { E e; e.op = "pow"; e.k = k; e.a = {a}; return e; }
inline E fsin(const E& a) { return un("sin", a); }
inline E fcos(const E& a) { return un("cos", a); }
inline E fexp(const E& a) { return un("exp", a); }
inline E flog(const E& a) { return un("log", a); }
inline E fsqrt(const E& a) { return un("sqrt", a); }
inline E fatan(const E& a) { return un("atan", a); }
inline E fabs_(const E& a) { return un("abs", a); }
inline E fsgn(const E& a) { return un("sgn", a); }
// c[0] + c[1] x + ...
inline E poly(const std::vector<double>& c, const E& x) { E r = C(c.back()); for (int i = (int)c.size() - 2; i >= 0; i--) r = r * x + C(c[i]); return r; }
}
#endif
