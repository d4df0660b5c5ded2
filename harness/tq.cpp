#include "vf.h"
#include <bcl/transparent_queue.h>
typedef bcl::TransparentQueue<int> TQ;
typedef int *P;
static P anyPtr(const char *n) { return (P)(uintptr_t)vf_any<uint64_t>(n); }
// reference model: a plain sequence
struct Model {
  static const unsigned CAP = 140; P v[CAP]; unsigned b = 0, e = 0;
  unsigned size() const { return e - b; }
  void push(P p) { v[e++] = p; }
  P pop() { return v[b++]; }
  P at(unsigned i) const { return v[b + i]; }
};
static void same(TQ &q, const Model &m) {
  const TQ &c = q;
  vf_check(c.size() == m.size(), "size equals the number of stored elements");
  vf_check(c.empty() == (m.size() == 0), "empty() iff no element is stored");
  if (m.size()) {
    vf_check(q.front() == m.at(0) && c.front() == m.at(0), "front() is the oldest element");
    vf_check(q.back() == m.at(m.size() - 1) && c.back() == m.at(m.size() - 1), "back() is the newest element");
  }
}
static void drain(TQ &q, Model m) {
  while (m.size()) {
    same(q, m);
    vf_check(q.pop() == m.pop(), "pop() returns elements in insertion order");
  }
  same(q, m);
  vf_check(q.empty(), "drained queue is empty");
}
// every history of `ops` operations starting from either constructor
VF_ENTRY(tq_history) {
  long ops = vf_param("ops", 5);
  Model m;
  uint64_t live0 = vf_live_allocs();
  {
    P p0 = anyPtr("init");
    bool one = vf_bool("ctor_with_value");
    TQ q0;
    TQ q1(p0);
    TQ &q = one ? q1 : q0;
    if (one) m.push(p0);
    same(q, m);
    for (long i = 0; i < ops; ++i) {
      switch (vf_choose(7, "op")) {
      case 0: { P p = anyPtr("p"); q.push(p); m.push(p); break; }
      case 5: if (m.size()) { P p = m.at(0); q.push(q.front()); m.push(p); vf_reach("itself"); } break; // an element of the queue itself
      case 6: if (m.size()) { P p = m.at(m.size() - 1); q.emplace(q.back()); m.push(p); } break;
      case 1: { P p = anyPtr("p"); q.emplace(p); m.push(p); break; }
      case 2: if (m.size()) vf_check(q.pop() == m.pop(), "pop() returns elements in insertion order"); else vf_check(q.pop() == nullptr, "pop() of an empty queue returns null"); break;
      case 3: if (m.size()) { P p = anyPtr("p"); q.front() = p; m.v[m.b] = p; } break;
      case 4: if (m.size()) { P p = anyPtr("p"); q.back() = p; m.v[m.e - 1] = p; } break;
      }
      same(q, m);
    }
    vf_reach("history");
    drain(q, m);
  }
  vf_check(vf_live_allocs() == live0, "no storage is leaked or freed twice");
}
// one operation from every state reachable by a pushes and b pops (crosses the storage blocks)
VF_ENTRY(tq_long) {
  unsigned n = vf_param("n", 70);
  uint64_t live0 = vf_live_allocs();
  {
    Model m; TQ q;
    unsigned a = vf_choose(n + 1, "pushes"), b = vf_choose(a + 1, "pops");
    for (unsigned i = 0; i < a; ++i) { P p = i < 2 || i + 2 >= a ? anyPtr("p") : (P)(uintptr_t)(0x1000 + i * 8); q.push(p); m.push(p); }
    for (unsigned i = 0; i < b; ++i) vf_check(q.pop() == m.pop(), "pop() returns elements in insertion order");
    same(q, m);
    P p = anyPtr("q");
    if (vf_bool("emplace")) q.emplace(p); else q.push(p);
    m.push(p);
    same(q, m);
    if (a > 65 && b > 64) vf_reach("blocks");
    drain(q, m);
  }
  vf_check(vf_live_allocs() == live0, "no storage is leaked or freed twice");
}
// arbitrary small state: (pushes, pops) chosen, contents symbolic
static void mk(TQ &q, Model &m, unsigned n) {
  if (n >= 100) { // long queues, also with a part of a storage block popped; two symbolic pointers
    static const unsigned A[] = {1, 4, 9, 17, 65, 130}, B[] = {0, 1, 3, 64, 66}; unsigned a = A[vf_choose(6, "pushes")], b = B[vf_choose(5, "pops")]; if (b > a) vf_end_path();
    for (unsigned i = 0; i < a; ++i) { P p = i + 1 == a || i == a / 2 + b / 2 ? anyPtr("p") : (P)(uintptr_t)(0x1000 + (i - b) * 8); q.push(p); m.push(p); }
    for (unsigned i = 0; i < b; ++i) { q.pop(); m.pop(); }
    return;
  }
  unsigned a = vf_choose(n + 1, "pushes"), b = vf_choose(a + 1, "pops");
  for (unsigned i = 0; i < a; ++i) { P p = anyPtr("p"); q.push(p); m.push(p); }
  for (unsigned i = 0; i < b; ++i) { q.pop(); m.pop(); }
}
// the contents may have come from another queue in any way
static void via(TQ &q, Model &m) {
  static int other;
  switch (vf_choose(6, "via")) {
  case 0: break;
  case 1: { TQ t; t.swap(q); q.swap(t); break; }
  case 2: { TQ t(&other); t.swap(q); q.swap(t); break; }
  case 3: { TQ t(q); TQ u; u.swap(t); q = u; break; }
  case 4: { TQ t(static_cast<TQ &&>(q)); q = static_cast<TQ &&>(t); break; }
  case 5: { TQ t, u; u.push(&other); u.push(&other); u.pop(); u.pop(); t = u; t.swap(q); q = t; break; }
  }
}
VF_ENTRY(tq_via) {
  uint64_t live0 = vf_live_allocs();
  {
    Model m; TQ q; mk(q, m, vf_param("n", 3)); via(q, m); same(q, m);
    for (long i = vf_param("ops", 3); i > 0; --i) {
      P p; switch (vf_choose(3, "op")) {
      case 0: p = anyPtr("p"); q.push(p); m.push(p); break;
      case 1: p = anyPtr("p"); q.emplace(p); m.push(p); break;
      case 2: if (m.size()) vf_check(q.pop() == m.pop(), "pop() returns elements in insertion order"); else vf_check(q.pop() == nullptr, "pop() of an empty queue returns null"); break;
      }
      same(q, m);
    }
    drain(q, m); vf_reach("via");
  }
  vf_check(vf_live_allocs() == live0, "no storage is leaked or freed twice");
}
VF_ENTRY(tq_copy) {
  unsigned n = vf_param("n", 3);
  uint64_t live0 = vf_live_allocs();
  {
    TQ x, y; Model mx, my;
    mk(x, mx, n); mk(y, my, n); if (vf_param("via", 0)) { via(x, mx); via(y, my); }
    switch (vf_choose(9, "op")) {
    case 0: { TQ z(x); drain(z, mx); vf_reach("copy"); break; }
    case 1: { TQ z(static_cast<TQ &&>(x)); drain(z, mx); mx = Model(); break; }
    case 2: { TQ &r = (y = x); vf_check(&r == &y, "assignment returns its target"); my = mx; break; }
    case 3: { TQ &r = (y = static_cast<TQ &&>(x)); vf_check(&r == &y, "assignment returns its target"); my = mx; mx = Model(); break; }
    case 4: { TQ &a = x; x = a; break; }
    case 5: { x.swap(y); Model t = mx; mx = my; my = t; vf_reach("swap"); break; }
    case 6: { swap(x, y); Model t = mx; mx = my; my = t; break; }
    case 7: { TQ &a = x; x.swap(a); break; }
    case 8: { const TQ &c = x; TQ z(c); P p = anyPtr("q"); z.push(p); if (mx.size()) z.pop(); break; }
    }
    // a later change of one queue must not affect the other
    P p = anyPtr("p2");
    if (vf_bool("mutate_x")) { x.push(p); mx.push(p); same(y, my); } else { y.push(p); my.push(p); same(x, mx); }
    drain(x, mx); drain(y, my);
  }
  vf_check(vf_live_allocs() == live0, "no storage is leaked or freed twice");
}
// a moved-from queue is an empty queue
VF_ENTRY(tq_moved_from) {
  TQ x; Model mx; mk(x, mx, vf_param("n", 3));
  TQ y; Model my; mk(y, my, 1);
  bool asg = vf_bool("assign");
  if (asg) y = static_cast<TQ &&>(x); else { TQ z(static_cast<TQ &&>(x)); drain(z, mx); }
  vf_check(x.empty() && x.size() == 0, "moved-from queue is empty");
  vf_check(x.pop() == nullptr, "pop() of an empty queue returns null");
  vf_reach("moved");
}
static bool lex(const Model &a, const Model &b) {
  for (unsigned i = 0; i < a.size() && i < b.size(); ++i) { if (a.at(i) < b.at(i)) return true; if (b.at(i) < a.at(i)) return false; }
  return a.size() < b.size();
}
static bool eq(const Model &a, const Model &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (unsigned i = 0; i < a.size(); ++i) r &= a.at(i) == b.at(i);
  return r;
}
VF_ENTRY(tq_compare) {
  unsigned n = vf_param("n", 3);
  TQ x, y; Model mx, my;
  mk(x, mx, n); mk(y, my, n); if (vf_param("via", 0)) { via(x, mx); via(y, my); }
  bool e = eq(mx, my), l = lex(mx, my), g = lex(my, mx);
  const TQ &cx = x, &cy = y;
  vf_check((cx == cy) == e, "== holds iff the element sequences are equal");
  vf_check((cx != cy) == !e, "!= is the negation of ==");
  vf_check((cx < cy) == l, "< is the lexicographical order");
  vf_check((cx > cy) == g, "> is the reversed order");
  vf_check((cx <= cy) == !g, "<= is the negation of >");
  vf_check((cx >= cy) == !l, ">= is the negation of <");
  if (e) vf_reach("equal");
  if (l) vf_reach("less");
  same(x, mx); same(y, my);
}
