// Threads, locks and condition variables over the scheduler of the harness API.  The names of the
// standard library are redirected here, so the code under test is scheduled by symbolic choices.
#pragma once
#include "vf.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
namespace vfthr {
extern bool (*asyncFails)(); extern unsigned spuriousLeft; extern bool noThreads; extern unsigned char finished, sleepSeen; // ended threads; what a sleeping thread has noticed
inline unsigned char peek(const unsigned char &c) { return __atomic_load_n(&c, __ATOMIC_RELAXED); }
inline void poke(unsigned char &c, unsigned char v) { __atomic_store_n(&c, v, __ATOMIC_RELAXED); }
struct mutex {
  unsigned char held = 0; unsigned char owner = 0;
  mutex() noexcept {} mutex(const mutex &) = delete; ~mutex() { if (peek(held)) vf_fail("a locked mutex is destroyed"); }
  void take() { while (peek(held)) vf_block(this); poke(held, 1); poke(owner, (unsigned char)vf_thread_self()); vf_hb_acquire(this); }
  void lock() { vf_sched(); if (peek(held) && peek(owner) == vf_thread_self()) vf_fail("a mutex is locked twice by one thread"); take(); }
  bool try_lock() { vf_sched(); if (peek(held)) return false; take(); return true; }
  void drop() { vf_hb_release(this); poke(held, 0); vf_wake_all(this); }
  void unlock() { if (!peek(held) || peek(owner) != vf_thread_self()) vf_fail("a mutex is unlocked by a thread which does not own it"); drop(); }
  typedef void *native_handle_type; native_handle_type native_handle() { return this; }
};
struct condition_variable {
  unsigned char waiting = 0; unsigned char alive = 1;
  condition_variable() {} condition_variable(const condition_variable &) = delete; ~condition_variable() { if (peek(waiting)) vf_fail("a condition variable is destroyed while a thread waits for it"); poke(alive, 0); }
  void touch() { if (!peek(alive)) vf_fail("a destroyed condition variable is used"); }
  void notify_one() noexcept { vf_sched(); touch(); if (peek(waiting)) poke(waiting, peek(waiting) - 1); vf_wake_one(this); }
  void notify_all() noexcept { vf_sched(); touch(); poke(waiting, 0); vf_wake_all(this); }
  template <class L> void wait(L &l) {
    mutex *m = l.mutex(); vf_sched(); touch();
    if (spuriousLeft && vf_choose(2, "spurious")) { --spuriousLeft; m->unlock(); vf_sched(); m->take(); return; }
    if (!peek(m->held) || peek(m->owner) != vf_thread_self()) vf_fail("waiting without the lock"); 
    poke(waiting, peek(waiting) + 1); m->drop(); vf_block(this); m->take();
  }
  template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
  template <class L, class D> std::cv_status wait_for(L &l, const D &) { mutex *m = l.mutex(); vf_sched(); m->unlock(); vf_sched(); m->take(); return std::cv_status::timeout; }
  template <class L, class D, class P> bool wait_for(L &l, const D &d, P p) { if (p()) return true; wait_for(l, d); return p(); }
};
struct system_error : std::runtime_error { system_error() : std::runtime_error("no thread") {} };
struct Body { virtual ~Body() {} virtual void run() = 0; };
template <class F, class... A> struct BodyOf : Body {
  std::tuple<F, A...> t; template <class G, class... B> BodyOf(G &&g, B &&...b) : t(std::forward<G>(g), std::forward<B>(b)...) {}
  template <size_t... I> void call(std::index_sequence<I...>) { std::__invoke(std::move(std::get<I>(t))...); }
  void run() override { call(std::make_index_sequence<1 + sizeof...(A)>()); }
};
inline void *bodyRun(void *p) { Body *b = (Body *)p; b->run(); delete b; poke(finished, peek(finished) + 1); vf_wake_all(&sleepSeen); return nullptr; }
inline void joinTid(uint64_t t) { while (!vf_thread_done(t)) vf_block((const void *)(0x7000 + t)); vf_thread_join_hb(t); }
struct thread {
  uint64_t tid = 0; typedef uint64_t id;
  thread() noexcept {} thread(thread &&o) noexcept : tid(o.tid) { o.tid = 0; } thread(const thread &) = delete;
  template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, thread>::value>> explicit thread(F &&f, A &&...a) { Body *b = new BodyOf<std::decay_t<F>, std::decay_t<A>...>(std::forward<F>(f), std::forward<A>(a)...); if (noThreads) { delete b; throw system_error(); } tid = vf_thread_create(bodyRun, b); vf_sched(); }
  thread &operator=(thread &&o) noexcept { if (tid) vf_fail("a joinable thread is overwritten"); tid = o.tid; o.tid = 0; return *this; }
  ~thread() { if (tid) vf_fail("a joinable thread is destroyed"); }
  bool joinable() const noexcept { return tid != 0; } void detach() { if (!tid) vf_fail("no thread to detach"); tid = 0; } void join() { if (!tid) vf_fail("no thread to join"); joinTid(tid); tid = 0; }
  id get_id() const noexcept { return tid; } static unsigned hardware_concurrency() noexcept { return 2; } void swap(thread &o) noexcept { std::swap(tid, o.tid); }
};
// result of an asynchronous call
enum class launch { vf_async = 1, deferred = 2 };
inline launch operator|(launch a, launch b) { return launch((int)a | (int)b); }
template <class T> struct future {
  struct St { T v{}; bool got = false; }; std::shared_ptr<St> s; uint64_t tid = 0; mutable std::shared_ptr<Body> later;
  future() noexcept {} future(future &&o) noexcept : s(std::move(o.s)), tid(o.tid), later(std::move(o.later)) { o.tid = 0; } ~future() { fin(); }
  future &operator=(future &&o) noexcept { if (this != &o) { fin(); s = std::move(o.s); tid = o.tid; later = std::move(o.later); o.tid = 0; } return *this; }
  void fin() { if (tid) joinTid(tid); tid = 0; s.reset(); later.reset(); }
  bool valid() const noexcept { return s != nullptr; }
  void wait() const { if (!s) vf_fail("a future without state is used"); if (tid) joinTid(tid); if (later) { auto b = later; later.reset(); b->run(); } }
  template <class D> std::future_status wait_for(const D &) const { if (!s) vf_fail("a future without state is used"); vf_sched(); if (later) return std::future_status::deferred; if (tid && !vf_thread_done(tid)) return std::future_status::timeout; if (tid) vf_thread_join_hb(tid); return std::future_status::ready; }
  T get() { wait(); T r = s->v; fin(); return r; }
};
template <class T, class F> struct Async : Body { std::shared_ptr<typename future<T>::St> s; F f; Async(std::shared_ptr<typename future<T>::St> s, F &&f) : s(s), f(std::move(f)) {} void run() override { s->v = f(); s->got = true; } };
template <class F, class... A> auto vf_async(launch how, F &&f, A &&...a) {
  typedef std::decay_t<decltype(std::declval<std::decay_t<F>>()(std::declval<std::decay_t<A>>()...))> T; future<T> r; r.s = std::make_shared<typename future<T>::St>();
  auto call = [g = std::decay_t<F>(std::forward<F>(f)), t = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)]() mutable { return std::apply([&](auto &...x) { return g(std::move(x)...); }, t); };
  if (how != launch::deferred && asyncFails && asyncFails()) throw system_error();
  Body *b = new Async<T, decltype(call)>(r.s, std::move(call)); if (how == launch::deferred) { r.later.reset(b); return r; }
  r.tid = vf_thread_create(bodyRun, b); vf_sched(); return r;
}
namespace this_thread { // a thread sleeps until another one ends (waiting in a loop for other events is out of reach)
template <class D> void sleep_for(const D &) { vf_sched(); if (peek(finished) == peek(sleepSeen)) vf_block(&sleepSeen); poke(sleepSeen, peek(finished)); } inline void yield() { vf_sched(); } inline uint64_t get_id() { return vf_thread_self(); } }
} // namespace vfthr
namespace std { using vf_mutex = vfthr::mutex; using vf_recursive_mutex = vfthr::mutex; using vf_condition_variable = vfthr::condition_variable; using vf_thread = vfthr::thread; template <class T> using vf_future = vfthr::future<T>; namespace vf_this_thread = vfthr::this_thread; using vf_launch = vfthr::launch; using vf_system_error = vfthr::system_error; using vfthr::vf_async; }
bool (*vfthr::asyncFails)(); unsigned vfthr::spuriousLeft; bool vfthr::noThreads; unsigned char vfthr::finished, vfthr::sleepSeen;
