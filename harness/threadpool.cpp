// C12: explores schedules of MML::ThreadPool under a controlled scheduler and records the distinct histories
#include <array>
#include <chrono>
#include <iomanip>
#include <limits>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <random>
#include <semaphore.h>
#include "vpsched.h"
#define mutex vp_mutex
#define shared_mutex vp_shared_mutex
#define recursive_mutex vp_recursive_mutex
#define condition_variable vp_condition_variable
#define condition_variable_any vp_condition_variable_any
#define atomic vp_atomic
#define atomic_bool vp_atomic_bool
#define atomic_int vp_atomic_int
#define atomic_size_t vp_atomic_size_t
#define thread vp_thread
#define this_thread vp_this_thread
#define queue vp_queue
#define function vp_function
#include "tools/ThreadPool.h"
#undef mutex
#undef shared_mutex
#undef recursive_mutex
#undef condition_variable
#undef condition_variable_any
#undef atomic
#undef atomic_bool
#undef atomic_int
#undef atomic_size_t
#undef thread
#undef this_thread
#undef queue
#undef function
using namespace vp;
using sched::S;
// A client program: main's operations and those of further clients.  Task kinds:
//  n normal, t throws, y yields inside, N submits another task, m meets another m, w waits (helper) ...
struct Op { char k; char arg; };
struct Scen { std::string id; int n; std::vector<std::vector<Op>> cl; int bound; int spur; long cap; };
static std::vector<Op> P(const char* s) { std::vector<Op> v; while (*s) { if (*s == ' ') { s++; continue; } if (*s == 'e' || *s == 's') { v.push_back({s[0], s[1]}); s += 2; } else { v.push_back({*s, 0}); s++; } } return v; }
static std::vector<std::string> H;       // events of this execution
static int ntasks, ncalls, meeting, met; static bool abandoned;
static void log(const Ev& e) { H.push_back(e.str()); }
struct TaskErr : std::runtime_error { int i; TaskErr(int i) : std::runtime_error("task"), i(i) {} };
struct OtherErr { int i; };
static MML::ThreadPool* pool;
static void submit(char kind);
static void body(int i, char k) {
  log(Ev("start").kv("i", i));
  S.point();
  if (k == 'N') submit('n');
  if (k == 'T') submit('t');
  if (k == 'm') { int my = ++meeting; int target = my + (my & 1); while (meeting < target) S.block([target] { return meeting >= target; }); }
  bool th = k == 't' || k == 'x' || k == 'u';
  log(Ev("end").kv("i", i).kv("throws", th));
  if (k == 't' || k == 'x') throw TaskErr(i);
  if (k == 'u') throw OtherErr{i};
}
static void submit(char kind) { int i = ++ntasks; log(Ev("submit").kv("i", i)); pool->enqueue([i, kind] { body(i, kind); }); log(Ev("submitted").kv("i", i)); }
static int which(std::exception_ptr e) { if (!e) return 0; try { std::rethrow_exception(e); } catch (const TaskErr& t) { return t.i; } catch (const OtherErr& t) { return t.i; } catch (...) { return -1; } }
template <class F> static void call(const char* f, F fn) { int c = ++ncalls; log(Ev("call").kv("c", c).kv("f", f)); S.point(); std::string v = fn(); log(Ev("ret").kv("c", c).kv("val", Raw{v})); }
static void runop(Op o) {
  auto ok = std::string("\"ok\"");
  switch (o.k) {
    case 'e': submit(o.arg); break;
    case 'w': call("wait", [&] { pool->wait_for_tasks(); return ok; }); break;
    case 'h': call("has_tasks", [&] { return js(pool->has_tasks()); }); break;
    case 'p': call("pending", [&] { return js((int)pool->pending_tasks()); }); break;
    case 'q': call("queued", [&] { return js((int)pool->queued_tasks()); }); break;
    case 'H': call("has_exc", [&] { return js(pool->has_exceptions()); }); break;
    case 'c': call("exc_count", [&] { return js((int)pool->exception_count()); }); break;
    case 'g': call("get_exc", [&] { return js(which(pool->get_exception())); }); break;
    case 'r': call("rethrow", [&] { int r = 0; try { pool->rethrow_if_exception(); } catch (const TaskErr& t) { r = t.i; } catch (const OtherErr& t) { r = t.i; } catch (...) { r = -1; } return js(r); }); break;
    case 'C': call("clear_exc", [&] { pool->clear_exceptions(); return ok; }); break;
    case 'k': call("threads", [&] { return js((int)pool->thread_count()); }); break;
    case 's': { char a = o.arg;
      if (a == '0') call("unset_cb", [&] { pool->set_error_callback(nullptr); return ok; });
      else call("set_cb", [&] { pool->set_error_callback([a](std::exception_ptr e) { int i = which(e); log(Ev("callback").kv("i", i)); S.point(); log(Ev("callbackend").kv("i", i)); if (a == 'x') throw std::runtime_error("callback"); }); return ok; });
      break; }
  }
}
static void execute(const Scen& sc) {
  H.clear(); ntasks = ncalls = meeting = 0;
  S.report = [](const char* w) { H.push_back(Ev(w).str()); };
  S.run([&] {
    log(Ev("new").kv("n", sc.n));
    pool = new MML::ThreadPool((size_t)sc.n);
    { std::vector<sched::thread> ts;
      for (size_t k = 1; k < sc.cl.size(); k++) ts.emplace_back([&sc, k] { for (auto o : sc.cl[k]) runop(o); });
      for (auto o : sc.cl[0]) runop(o);
      for (auto& t : ts) t.join(); }
    call("destroy", [&] { delete pool; return std::string("\"ok\""); });
    log(Ev("final").kv("tasks", ntasks));
  });
}
int main(int ac, char** av) {
  Args A = args(ac, av); Rng R(A.seed); Out out; out.open(A.out.c_str()); bool th = A.thorough();
  std::vector<Scen> sc; int sn = 0;
  auto add = [&](int n, std::vector<const char*> cl, int bound, int spur = 0, long cap = 0) { Scen s; s.id = "s" + std::to_string(sn++); s.n = n; for (auto c : cl) s.cl.push_back(P(c)); s.bound = bound + (th ? 1 : 0); s.spur = spur; s.cap = cap ? cap : (th ? 1500000 : 20000); sc.push_back(s); };
  add(1, {"en w"}, 3); add(2, {"en w"}, 3); add(1, {"en en w"}, 2); add(2, {"en en w"}, 2); add(2, {"en w en w"}, 2);
  add(2, {"en en en"}, 2); add(1, {"en en en"}, 2); add(2, {""}, 3); add(3, {"w"}, 2);
  add(1, {"en w", "w"}, 2); add(2, {"en w", "en w"}, 2); add(2, {"en en", "w w"}, 2); add(2, {"w h", "en"}, 2);
  add(1, {"et w H c g g"}, 2); add(2, {"et et w c g g H"}, 2); add(1, {"s1 et et w c r r H"}, 2); add(2, {"sx et ex w c"}, 2); add(2, {"s1 et w s0 et w c"}, 1); add(1, {"eu w g"}, 2);
  add(2, {"et et w em em w c"}, 1); add(3, {"et et et w em em w c"}, 1); add(2, {"em em w"}, 2);
  add(1, {"eN w h p q"}, 2); add(2, {"eN eN w h p q"}, 1); add(1, {"eT w c"}, 2); add(2, {"eN"}, 2); add(1, {"eT eN"}, 1);
  add(2, {"en en h p q h p q w"}, 1); add(1, {"en en q p h", "q p h"}, 1); add(2, {"s1 et et", "s0 c H"}, 1); add(2, {"et et w C c H g"}, 1);
  add(2, {"en w en w", "en w"}, 1, 1); add(2, {"et en w c"}, 1, 1); add(1, {"en en w"}, 1, 2); add(2, {"k en w k"}, 1);
  add(1, {"w w", "w", "en"}, 1); add(2, {"g g", "g g", "et et"}, 1);
  const char* en12 = "en en en en en en en en en en en en";
  add(1, {en12}, 0, 0, 60); add(2, {"en en en en en en en en en en en en en en en en en w"}, 0, 0, 60); add(1, {"s1 et et et et et et et et w c H g g g g g g g g g c"}, 0, 0, 60);
  add(4, {"en en en en en en w h p q"}, 0, 0, 60); add(1, {"en en en en en en q en en en w", "en en en w h"}, 0, 0, 60); add(4, {"et et w em em em em w c"}, 0, 0, 40);
  std::set<std::string> seen; long total = 0; bool bad = false;
  auto emit = [&](const std::string& id) {
    std::string key; for (auto& e : H) { key += e; key += '\n'; }
    if (!seen.insert(key).second) return;
    out.begin(id); for (auto& e : H) out.evs.push_back(e); out.end();
  };
  size_t perScen = th ? 1500 : 120;
  for (auto& s : sc) {
    out.note(s.id); alarm(th ? 900 : 120);
    S.choices.clear(); S.bound = s.bound; S.spurbound = s.spur; S.random = false; S.rng = &R; long n = 0;
    std::vector<std::vector<std::string>> keep; std::set<std::string> local;
    // every schedule is executed; a sample of the distinct histories, and every one with an
    // outcome not seen before (order of events dropped), is kept for the specification
    std::set<std::string> outcomes;
    bool more = true;
    while (more && n < s.cap) {
      execute(s); n++; total++;
      std::string key; for (auto& e : H) { key += e; key += '\n'; }
      std::vector<std::string> so = H; std::sort(so.begin(), so.end()); std::string ok; for (auto& e : so) ok += e + "\n";
      bool stuck = S.stuck;
      if (local.insert(key).second && (stuck || outcomes.insert(ok).second || keep.size() < perScen)) keep.push_back(H);
      else if (local.size() % 7 == 0 && keep.size() < 2 * perScen && seen.insert(key).second) keep.push_back(H);
      if (stuck) break;
      more = S.advance();
    }
    int k = 0; for (auto& h : keep) { H = h; emit(s.id + "-" + std::to_string(k++)); }
    // random schedules without bound
    S.random = true; S.bound = 1000; if (!S.stuck) for (int i = 0; i < (s.cap < 100 ? (th ? 400 : 40) : th ? 3000 : 150); i++) { S.choices.clear(); execute(s); total++; if (i % (th ? 10 : 8) == 0 || S.stuck) emit(s.id + "-r" + std::to_string(i)); if (S.stuck) break; }
    alarm(0);
  }
  // random programs, random schedules
  for (int i = 0; i < (th ? 4000 : 250); i++) {
    Scen s; s.n = R.range(1, 3); int nc = R.range(1, 2); int budget = R.range(2, 5);
    const char* ks = "nnntTNx";
    for (int c = 0; c < nc; c++) { std::vector<Op> v; int len = R.range(1, 5); for (int j = 0; j < len; j++) { int w = R.range(0, 9); if (w < 5 && budget) { v.push_back({'e', ks[R.range(0, 6)]}); budget--; } else if (w < 7) v.push_back({'w', 0}); else { const char* q = "hpqHcgrCs"; char x = q[R.range(0, 8)]; v.push_back({x, x == 's' ? "1x0"[R.range(0, 2)] : (char)0}); } } s.cl.push_back(v); }
    out.note("rnd" + std::to_string(i)); alarm(60); S.random = true; S.bound = 1000; S.spurbound = R.range(0, 1);
    for (int j = 0; j < 40; j++) { S.choices.clear(); execute(s); total++; if (j == 0 || S.stuck) emit("rnd" + std::to_string(i) + "-" + std::to_string(j)); if (S.stuck) break; }
    alarm(0);
  }
  fprintf(stderr, "schedules executed: %ld\n", total);
  out.close();
}
