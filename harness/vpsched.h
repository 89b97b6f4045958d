// A controlled scheduler: the std threading primitives used by the code under test are replaced by
// cooperative ones, so that every interleaving (up to a preemption bound) can be explored and replayed.
// Include all standard headers first, then this, then the code under test between VP_SHIM_ON/OFF.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <shared_mutex>
#include <stdexcept>
#include <thread>
#include <ucontext.h>
#include <cxxabi.h>
#include "vp.h"
namespace sched {
typedef std::vector<unsigned> VC;      // vector clock
inline void joinvc(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
struct Fiber { ucontext_t ctx; std::vector<char>* stack = nullptr; char eh[16] = {0}; bool done = false; std::function<bool()> blocked; std::function<void()> body; VC vc; int id; };
struct Sched; inline Sched* self();
struct Sched {
  std::vector<std::unique_ptr<Fiber>> fs; int cur = -1; ucontext_t home; char homeeh[16];
  std::vector<std::pair<int, int>> choices; size_t pos = 0; int preempt = 0, bound = 2; long steps = 0; bool stuck = false; int spurious = 0, spurbound = 0;
  bool random = false; vp::Rng* rng = nullptr;
  std::function<void(const char*)> report;
  std::vector<std::vector<char>*> pool;
  int choose(int n) {       // n alternatives
    if (n <= 1) return 0;
    if (pos < choices.size()) return choices[pos++].first;
    int c = random ? rng->range(0, n - 1) : 0; choices.push_back({c, n}); pos++; return c;
  }
  bool advance() {          // next schedule in depth-first order
    while (!choices.empty() && choices.back().first + 1 >= choices.back().second) choices.pop_back();
    if (choices.empty()) return false; choices.back().first++; return true;
  }
  static void entry() { Sched& S = *self(); S.fs[S.cur]->body(); S.fs[S.cur]->body = nullptr; S.finish(); }
  int spawn(std::function<void()> f) {
    auto p = std::make_unique<Fiber>(); p->id = fs.size();
    if (pool.empty()) p->stack = new std::vector<char>(96 * 1024); else { p->stack = pool.back(); pool.pop_back(); }
    getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack->data(); p->ctx.uc_stack.ss_size = p->stack->size(); p->ctx.uc_link = nullptr; makecontext(&p->ctx, entry, 0);
    p->body = std::move(f); if (cur >= 0) { p->vc = fs[cur]->vc; tick(); } p->vc.resize(std::max<size_t>(p->vc.size(), p->id + 1)); p->vc[p->id] = 1;
    fs.push_back(std::move(p)); return fs.size() - 1;
  }
  void tick() { auto& v = fs[cur]->vc; if ((int)v.size() <= cur) v.resize(cur + 1); v[cur]++; }
  VC& vc() { return fs[cur]->vc; }
  void to(int n) {
    int o = cur; if (n == o) return; cur = n;
    memcpy(fs[o]->eh, abi::__cxa_get_globals(), 16); memcpy(abi::__cxa_get_globals(), fs[n]->eh, 16);
    swapcontext(&fs[o]->ctx, &fs[n]->ctx);
  }
  void gohome() { memcpy(fs[cur]->eh, abi::__cxa_get_globals(), 16); memcpy(abi::__cxa_get_globals(), homeeh, 16); int o = cur; cur = -1; swapcontext(&fs[o]->ctx, &home); }
  // pick the next fiber; the current one may go on only if mayGoOn
  void reschedule(bool voluntary) {
    if (++steps > 20000) { stuck = true; report("livelock"); gohome(); }
    std::vector<int> en; bool curEn = !fs[cur]->done && (!fs[cur]->blocked || fs[cur]->blocked());
    if (curEn) en.push_back(cur);
    if (!curEn || voluntary || preempt < bound) for (int i = 0; i < (int)fs.size(); i++) if (i != cur && !fs[i]->done && (!fs[i]->blocked || fs[i]->blocked())) en.push_back(i);
    if (en.empty()) { bool all = true; for (auto& f : fs) if (!f->done) all = false; if (!all) { stuck = true; report("deadlock"); } gohome(); return; }
    int c;
    if (random && curEn && en.size() > 1 && !voluntary) { if (pos < choices.size()) c = choices[pos++].first; else { c = rng->chance(1, 4) ? rng->range(1, en.size() - 1) : 0; choices.push_back({c, (int)en.size()}); pos++; } }
    else c = choose(en.size());
    if (curEn && c > 0 && !voluntary) preempt++;
    fs[en[c]]->blocked = nullptr; to(en[c]);
  }
  void point() { if (cur >= 0) reschedule(false); }
  void yield() { if (cur >= 0) reschedule(true); }
  void block(std::function<bool()> ready) { fs[cur]->blocked = std::move(ready); reschedule(false); }
  void finish() { fs[cur]->done = true; reschedule(false); abort(); }
  void run(std::function<void()> main) {
    fs.clear(); pos = 0; preempt = 0; steps = 0; stuck = false; spurious = 0; cur = -1;
    memcpy(homeeh, abi::__cxa_get_globals(), 16);
    spawn(std::move(main)); cur = 0; memset(abi::__cxa_get_globals(), 0, 16); swapcontext(&home, &fs[0]->ctx);
    for (auto& f : fs) { if (f->done) pool.push_back(f->stack); /* else: leak, the frame is alive */ else { f.release(); } }
    fs.clear();
  }
};
inline Sched S; inline Sched* self() { return &S; }
inline void race(const char* what) { S.report("race"); }
struct mutex {
  int owner = -1; VC vc;
  void lock() { S.point(); while (owner >= 0) S.block([this] { return owner < 0; }); owner = S.cur; if (S.cur >= 0) joinvc(S.vc(), vc); }
  bool try_lock() { S.point(); if (owner >= 0) return false; owner = S.cur; if (S.cur >= 0) joinvc(S.vc(), vc); return true; }
  void unlock() { if (owner != S.cur) S.report("race"); if (S.cur >= 0) { joinvc(vc, S.vc()); S.tick(); } owner = -1; S.point(); }
  mutex() = default; mutex(const mutex&) = delete;
};
struct shared_mutex {
  int owner = -1, readers = 0; VC vc;
  void lock() { S.point(); while (owner >= 0 || readers) S.block([this] { return owner < 0 && !readers; }); owner = S.cur; joinvc(S.vc(), vc); }
  void unlock() { joinvc(vc, S.vc()); S.tick(); owner = -1; S.point(); }
  bool try_lock() { S.point(); if (owner >= 0 || readers) return false; owner = S.cur; joinvc(S.vc(), vc); return true; }
  void lock_shared() { S.point(); while (owner >= 0) S.block([this] { return owner < 0; }); readers++; joinvc(S.vc(), vc); }
  void unlock_shared() { joinvc(vc, S.vc()); S.tick(); readers--; S.point(); }
  shared_mutex() = default; shared_mutex(const shared_mutex&) = delete;
};
struct recursive_mutex {
  int owner = -1, n = 0; VC vc;
  void lock() { S.point(); if (owner == S.cur) { n++; return; } while (owner >= 0) S.block([this] { return owner < 0; }); owner = S.cur; n = 1; joinvc(S.vc(), vc); }
  void unlock() { if (--n) return; joinvc(vc, S.vc()); S.tick(); owner = -1; S.point(); }
  recursive_mutex() = default; recursive_mutex(const recursive_mutex&) = delete;
};
struct condition_variable {
  struct W { bool on = false; }; std::deque<std::shared_ptr<W>> ws;
  template <class L> void wait(L& l) {
    S.point(); auto w = std::make_shared<W>(); ws.push_back(w);
    if (S.spurious < S.spurbound && S.choose(2)) { S.spurious++; w->on = true; }
    // releasing the mutex and going to sleep is one step
    auto* m = l.mutex(); joinvc(m->vc, S.vc()); S.tick(); m->owner = -1; if (w->on) for (size_t i = 0; i < ws.size(); i++) if (ws[i] == w) { ws.erase(ws.begin() + i); break; }
    S.block([w] { return w->on; });
    while (m->owner >= 0) S.block([m] { return m->owner < 0; });
    m->owner = S.cur; joinvc(S.vc(), m->vc);
  }
  template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
  // timed waits: the time may run out at any moment, so the choice is the scheduler's
  template <class L, class R, class Pd, class P> bool wait_for(L& l, const std::chrono::duration<R, Pd>&, P p) { int k = 0; while (!p()) { if (S.choose(2)) { timeout(l); return p(); } if (++k > 3) { timeout(l); continue; } wait(l); } return true; }
  template <class L, class R, class Pd> std::cv_status wait_for(L& l, const std::chrono::duration<R, Pd>&) { timeout(l); return std::cv_status::timeout; }
  template <class L, class C, class D, class P> bool wait_until(L& l, const std::chrono::time_point<C, D>&, P p) { return wait_for(l, std::chrono::seconds(1), p); }
  template <class L> void timeout(L& l) { l.unlock(); S.yield(); l.lock(); }
  void notify_one() { S.point(); if (ws.empty()) return; int k = S.choose((int)ws.size()); ws[k]->on = true; ws.erase(ws.begin() + k); }
  void notify_all() { S.point(); for (auto& w : ws) w->on = true; ws.clear(); }
  condition_variable() = default; condition_variable(const condition_variable&) = delete;
};
template <class T> struct atomic {
  T v{}; mutable VC vc;
  atomic() = default; atomic(T x) : v(x) {} atomic(const atomic&) = delete;
  void sync() const { S.point(); if (S.cur >= 0) { joinvc(S.vc(), vc); joinvc(vc, S.vc()); S.tick(); } }
  T load(std::memory_order = std::memory_order_seq_cst) const { sync(); return v; }
  void store(T x, std::memory_order = std::memory_order_seq_cst) { sync(); v = x; }
  operator T() const { return load(); } T operator=(T x) { store(x); return x; }
  T operator++() { sync(); return ++v; } T operator--() { sync(); return --v; } T operator++(int) { sync(); return v++; } T operator--(int) { sync(); return v--; }
  template <class U> T operator+=(U x) { sync(); return v += x; } template <class U> T operator-=(U x) { sync(); return v -= x; }
  T fetch_add(T x, std::memory_order = std::memory_order_seq_cst) { sync(); T o = v; v += x; return o; }
  T fetch_sub(T x, std::memory_order = std::memory_order_seq_cst) { sync(); T o = v; v -= x; return o; }
  T exchange(T x, std::memory_order = std::memory_order_seq_cst) { sync(); T o = v; v = x; return o; }
  bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { sync(); if (v == e) { v = d; return true; } e = v; return false; }
  bool compare_exchange_weak(T& e, T d, std::memory_order a = std::memory_order_seq_cst, std::memory_order b = std::memory_order_seq_cst) { return compare_exchange_strong(e, d); }
};
struct thread {
  struct St { bool done = false; VC vc; }; std::shared_ptr<St> st; bool joinable_ = false; typedef int id; int fid = -1;
  thread() = default; thread(const thread&) = delete;
  thread(thread&& o) noexcept : st(std::move(o.st)), joinable_(o.joinable_), fid(o.fid) { o.joinable_ = false; }
  thread& operator=(thread&& o) { if (joinable_) std::terminate(); st = std::move(o.st); joinable_ = o.joinable_; fid = o.fid; o.joinable_ = false; return *this; }
  template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, thread>::value>> explicit thread(F&& f, A&&... a) {
    st = std::make_shared<St>(); auto s = st; auto g = std::make_shared<std::function<void()>>(std::bind(std::forward<F>(f), std::forward<A>(a)...));
    joinable_ = true; fid = S.spawn([s, g] { (*g)(); s->vc = S.vc(); s->done = true; }); S.point();
  }
  ~thread() { if (joinable_) std::terminate(); }
  bool joinable() const { return joinable_; }
  void join() { S.point(); auto s = st; while (!s->done) S.block([s] { return s->done; }); joinvc(S.vc(), s->vc); joinable_ = false; }
  void detach() { joinable_ = false; }
  int get_id() const { return fid; }
  static unsigned hardware_concurrency() { return 2; }
};
struct thisthread { static void yield() { S.yield(); } template <class D> static void sleep_for(const D&) { S.yield(); } template <class D> static void sleep_until(const D&) { S.yield(); } static int get_id() { return S.cur; } };
// happens-before race detection on the shared containers
struct Guarded {
  mutable VC w, r;
  static bool before(const VC& a, const VC& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] > (i < b.size() ? b[i] : 0)) return false; return true; }
  void rd() const { if (S.cur < 0) return; if (!before(w, S.vc())) race("read"); if ((int)r.size() <= S.cur) r.resize(S.cur + 1); r[S.cur] = S.vc()[S.cur]; }
  void wr() const { if (S.cur < 0) return; if (!before(w, S.vc()) || !before(r, S.vc())) race("write"); w = VC(S.cur + 1, 0); w[S.cur] = S.vc()[S.cur]; }
};
template <class T, class C = std::deque<T>> struct queue : std::queue<T, C> {
  typedef std::queue<T, C> B; Guarded g;
  queue() = default; queue(const queue& o) : B((o.g.rd(), (const B&)o)) {} queue(queue&& o) : B((o.g.wr(), (B&&)o)) {}
  queue& operator=(const queue& o) { o.g.rd(); g.wr(); (B&)*this = o; return *this; } queue& operator=(queue&& o) { o.g.wr(); g.wr(); (B&)*this = (B&&)o; return *this; }
  bool empty() const { g.rd(); return B::empty(); } size_t size() const { g.rd(); return B::size(); }
  T& front() { g.rd(); return B::front(); } const T& front() const { g.rd(); return B::front(); } T& back() { g.rd(); return B::back(); }
  void push(const T& x) { g.wr(); B::push(x); } void push(T&& x) { g.wr(); B::push(std::move(x)); } template <class... A> decltype(auto) emplace(A&&... a) { g.wr(); return B::emplace(std::forward<A>(a)...); }
  void pop() { g.wr(); if (B::empty()) { S.report("terminate"); std::abort(); } B::pop(); } void swap(queue& o) { g.wr(); o.g.wr(); B::swap(o); }
};
template <class Sig> struct function;
template <class R, class... A> struct function<R(A...)> : std::function<R(A...)> {
  typedef std::function<R(A...)> B; Guarded g;
  function() = default; function(std::nullptr_t) {} function(const function& o) : B((o.g.rd(), (const B&)o)) {} function(function&& o) : B((o.g.wr(), (B&&)o)) {}
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, function>::value && std::is_invocable<std::decay_t<F>&, A...>::value>> function(F&& f) : B(std::forward<F>(f)) {}
  function& operator=(const function& o) { o.g.rd(); g.wr(); (B&)*this = (const B&)o; return *this; } function& operator=(function&& o) { o.g.wr(); g.wr(); (B&)*this = (B&&)o; return *this; } function& operator=(std::nullptr_t) { g.wr(); (B&)*this = nullptr; return *this; }
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, function>::value && std::is_invocable<std::decay_t<F>&, A...>::value>> function& operator=(F&& f) { g.wr(); (B&)*this = std::forward<F>(f); return *this; }
  explicit operator bool() const { g.rd(); return (bool)(const B&)*this; }
  void swap(function& o) { g.wr(); o.g.wr(); B::swap(o); }
  R operator()(A... a) const { g.rd(); return B::operator()(std::forward<A>(a)...); }
};
template <class R, class... A> bool operator!=(const function<R(A...)>& f, std::nullptr_t) { return (bool)f; }
template <class R, class... A> bool operator==(const function<R(A...)>& f, std::nullptr_t) { return !(bool)f; }
template <class R, class... A> bool operator!=(std::nullptr_t, const function<R(A...)>& f) { return (bool)f; }
template <class R, class... A> bool operator==(std::nullptr_t, const function<R(A...)>& f) { return !(bool)f; }
}
namespace std {
using vp_mutex = sched::mutex; using vp_shared_mutex = sched::shared_mutex; using vp_recursive_mutex = sched::recursive_mutex; using vp_condition_variable = sched::condition_variable; using vp_condition_variable_any = sched::condition_variable;
template <class T> using vp_atomic = sched::atomic<T>; using vp_atomic_bool = sched::atomic<bool>; using vp_atomic_int = sched::atomic<int>; using vp_atomic_size_t = sched::atomic<size_t>;
using vp_thread = sched::thread; using vp_this_thread = sched::thisthread;
template <class T, class C = std::deque<T>> using vp_queue = sched::queue<T, C>; template <class T> using vp_function = sched::function<T>;
}
