// Recording support shared by all harnesses.  A harness drives the public API of /repo/mml and writes
// one JSON line per history: {"id":..., "ev":[{"op":...,...},...]}.  Doubles are written as C hex
// floats in strings, so nothing is lost on the way to the specification.
#ifndef VP_H
#define VP_H
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <cxxabi.h>
#include <map>
#include <algorithm>

namespace vp {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0xD1B54A32D192ED03ull + 0x1234567ull) { s = next() ^ (seed << 32); s = next(); }   // streams of different seeds do not overlap
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
  bool chance(int num, int den) { return (int)(next() % den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline std::string esc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string hex(double x) {
  if (x != x) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  char b[64]; snprintf(b, sizeof b, "%a", x); return b;
}
inline std::string hex(long double x) {
  if (x != x) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  char b[80]; snprintf(b, sizeof b, "%La", x); return b;
}
inline std::string js(double x) { return "\"" + hex(x) + "\""; }
inline std::string js(float x) { return "\"" + hex((double)x) + "\""; }
inline std::string js(long double x) { return "\"" + hex(x) + "\""; }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(long long x) { return (x > 2000000000ll || x < -2000000000ll) ? "\"" + std::to_string(x) + "\"" : std::to_string(x); }
inline std::string js(int x) { return js((long long)x); }
inline std::string js(long x) { return js((long long)x); }
inline std::string js(unsigned x) { return js((long long)x); }
inline std::string js(unsigned long x) { return x > 2000000000ul ? "\"" + std::to_string(x) + "\"" : std::to_string(x); }
inline std::string js(const std::string& s) { return esc(s); }
inline std::string js(const char* s) { return esc(s); }
template <class T> std::string js(const std::complex<T>& z) { return "[" + js(z.real()) + "," + js(z.imag()) + "]"; }
template <class T> std::string js(const std::vector<T>& v);
template <class A, class B> std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }
template <class T> std::string js(const std::vector<T>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += js((T)v[i]); }
  return o + "]";
}
struct Raw { std::string s; };
inline std::string js(const Raw& r) { return r.s; }

struct Ev {
  std::string s;
  explicit Ev(const std::string& op) { s = "{\"op\":" + esc(op); }
  template <class T> Ev& kv(const char* k, const T& v) { s += ",\""; s += k; s += "\":"; s += js(v); return *this; }
  std::string str() const { return s + "}"; }
};

// Crash and hang reporting: the history being executed is kept in a static buffer.
inline char g_cur[4096];
inline long g_budget_s = 20;
inline void on_sig(int sig) {
  char b[4400]; int n = snprintf(b, sizeof b, "\nVP-CRASH sig=%d at %s\n", sig, g_cur);
  (void)!write(2, b, n); _exit(sig == SIGALRM ? 98 : 97);
}
inline void on_term() {
  std::string w = "unknown";
  if (auto e = std::current_exception()) try { std::rethrow_exception(e); } catch (const std::exception& x) { w = x.what(); } catch (...) {}
  fprintf(stderr, "\nVP-CRASH terminate(%s) at %s\n", w.c_str(), g_cur); _exit(97);
}

struct Out {
  FILE* f = nullptr; long nh = 0, ne = 0;
  std::string id; std::vector<std::string> evs;
  std::string pre;
  void open(const char* path) {
    f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig); signal(SIGALRM, on_sig);
    std::set_terminate(on_term);
  }
  void begin(const std::string& i) { id = i; evs.clear(); note(i); alarm((unsigned)g_budget_s); }
  void note(const std::string& w) { snprintf(g_cur, sizeof g_cur, "%s", w.c_str()); }
  void at(const std::string& w) { snprintf(g_cur, sizeof g_cur, "%s: %s", id.c_str(), w.c_str()); }
  void ev(const Ev& e) { evs.push_back(e.str()); ne++; }
  void end() {
    alarm(0);
    fprintf(f, "{\"id\":%s,\"ev\":[", esc(id).c_str());
    for (size_t i = 0; i < evs.size(); i++) fprintf(f, "%s%s", i ? "," : "", evs[i].c_str());
    fprintf(f, "]}\n"); nh++;
  }
  void one(const std::string& i, const Ev& e) { id = i; evs.clear(); ev(e); end(); }
  void close() { if (f) fclose(f); f = nullptr; }
};

// The exception classes callers can distinguish, by the standard base they can catch.
inline std::string exname(const std::exception& e) {
  int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); std::string r = d ? d : typeid(e).name(); free(d);
  size_t p = r.rfind("::"); return p == std::string::npos ? r : r.substr(p + 2);
}
// run f; returns "" or the name of the exception thrown
template <class F> std::string guarded(F f) {
  try { f(); return ""; }
  catch (const std::exception& e) { return exname(e); }
  catch (...) { return "unknown"; }
}
struct Args { std::string tier; uint64_t seed; std::string out, script; bool thorough() const { return tier == "thorough"; } };
inline Args args(int c, char** v) {
  Args a; a.tier = c > 1 ? v[1] : "quick"; a.seed = c > 2 ? strtoull(v[2], 0, 10) : 1; a.out = c > 3 ? v[3] : "trace.ndjson"; a.script = c > 4 ? v[4] : ""; return a;
}
}
#endif
