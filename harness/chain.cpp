#include "vf.h"
#include <cassert>
#include <bcl/Chain.h>
// Reference model: the chain structure is the set of edges (i -> nxt[i]); an edit removes and adds edges.
enum { MAXK = 6 };
struct Tag2;
struct Node : bcl::Chain<Node>, bcl::Chain<Node, Tag2> { uint32_t payload; };
typedef bcl::Chain<Node> C1; typedef bcl::Chain<Node, Tag2> C2;
typedef bcl::ChainTraits<Node> T1; typedef bcl::ChainTraits<Node, Tag2> T2;
static unsigned K;
static uint8_t sel(bool c, uint8_t a, uint8_t b) { return b ^ ((a ^ b) & (uint8_t)-(uint8_t)c); }
struct Model {
  uint8_t nxt[MAXK];   // K: none
  uint8_t succ(uint8_t n) const { uint8_t r = K; for (unsigned i = 0; i < K; ++i) r = sel(n == i, nxt[i], r); return r; }
  uint8_t pred(uint8_t n) const { uint8_t r = K; for (unsigned i = 0; i < K; ++i) r = sel((nxt[i] == n) & (n < K), i, r); return r; }
  void set(uint8_t n, uint8_t m) { for (unsigned i = 0; i < K; ++i) nxt[i] = sel(n == i, m, nxt[i]); }
  void cutInto(uint8_t n) { set(pred(n), K); }
};
static Node nodes[MAXK];
static Node *ptr(uint8_t i) { return (Node *)((uintptr_t)&nodes[i] & (uintptr_t)-(intptr_t)(i < K)); }
// arbitrary set of chains over K nodes, built with the public interface
static void mk(Model &m) {
  for (unsigned i = 0; i < K; ++i) {
    new (&nodes[i]) Node(); nodes[i].payload = vf_any<uint32_t>("payload");
    uint8_t n = vf_in<uint8_t>(0, K, "next"); vf_assume(n != i); n = vf_fix(n);
    bool ok = true; for (unsigned j = 0; j < i; ++j) ok &= (n == K) | (m.nxt[j] != n);
    vf_assume(ok);
    m.nxt[i] = n;
  }
  for (unsigned i = 0; i < K; ++i) if (m.nxt[i] < K) T1::mergeNext((C1 *)ptr(m.nxt[i]), (C1 *)&nodes[i]);
}
static void same(const Model &m) {
  for (unsigned i = 0; i < K; ++i) {
    vf_check(T1::getNext((C1 *)&nodes[i]) == ptr(m.nxt[i]), "next link follows the edit");
    vf_check(T1::getNext((const C1 *)&nodes[i]) == ptr(m.nxt[i]), "next link follows the edit (const)");
    vf_check(T1::getPrev((C1 *)&nodes[i]) == ptr(m.pred(i)), "previous link is the inverse of next");
    vf_check(T1::getPrev((const C1 *)&nodes[i]) == ptr(m.pred(i)), "previous link is the inverse of next (const)");
  }
}
static void edit(Model &m, bool iters) {
  unsigned op = vf_choose(4, "op");
  uint8_t a = vf_in<uint8_t>(0, K - 1, "at"), n = vf_in<uint8_t>(0, K, "node"); vf_assume(a != n); a = vf_fix(a); n = vf_fix(n);
  C1 *A = ptr(a); Node *NN = ptr(n); C1 *N = NN;
  bcl::ChainIterator<Node> I((C1 *)ptr(a));
  switch (op) {
  case 0: // splice after
    if (iters) I.spliceNext(NN); else T1::spliceNext(N, A);
    m.cutInto(n); m.set(n, K); { uint8_t s = m.succ(a); m.set(n, s); m.set(a, n); vf_reach("spliceNext"); }
    break;
  case 1: // splice before
    if (iters) I.splicePrev(NN); else T1::splicePrev(NN, A);
    m.cutInto(n); m.set(n, K); { uint8_t p = m.pred(a); m.set(p, n); m.set(n, a); vf_reach("splicePrev"); }
    break;
  case 2: // the chain which starts at N follows A
    if (iters) I.mergeNext(NN); else T1::mergeNext(N, A);
    m.cutInto(n); m.set(a, n); vf_reach("mergeNext");
    break;
  case 3: // the chain which ends at N precedes A
    if (iters) I.mergePrev(NN); else T1::mergePrev(NN, A);
    m.cutInto(a); m.set(n, a); vf_reach("mergePrev");
    break;
  }
}
VF_ENTRY(chain_edit) {
  K = vf_param("k", 4);
  Model m; mk(m);
  // a second, independent chain through the same nodes must not notice anything
  for (unsigned i = 0; i + 1 < K; ++i) T2::mergeNext((C2 *)&nodes[i + 1], (C2 *)&nodes[i]);
  uint32_t pay[MAXK]; for (unsigned i = 0; i < K; ++i) pay[i] = nodes[i].payload;
  same(m);
  long ops = vf_param("ops", 1); bool iters = vf_bool("through_iterator");
  for (long i = 0; i < ops; ++i) { edit(m, iters); same(m); }
  for (unsigned i = 0; i < K; ++i) {
    vf_check(nodes[i].payload == pay[i], "node contents untouched");
    vf_check(T2::getNext((C2 *)&nodes[i]) == (i + 1 < K ? &nodes[i + 1] : nullptr), "chains with another tag untouched");
    vf_check(T2::getPrev((C2 *)&nodes[i]) == (i ? &nodes[i - 1] : nullptr), "chains with another tag untouched");
  }
}
// iteration
VF_ENTRY(chain_iter) {
  K = vf_param("k", 4);
  Model m; mk(m);
  uint8_t a = vf_fix(vf_in<uint8_t>(0, K - 1, "start"));
  bool cst = vf_bool("const");
  bcl::ChainIterator<Node> it((C1 *)ptr(a)); bcl::ChainIteratorC<Node> ic((const C1 *)ptr(a));
  uint8_t cur = a; long steps = vf_param("steps", 4);
  bool end = false;
  for (long s = 0; s < steps; ++s) {
    Node *P = ptr(cur);
    vf_check(ic.get() == P && it.get() == P && &*it == P && &*ic == P && it.operator->() == P && ic.operator->() == P, "dereference yields the current node");
    vf_check((it == P) && !(it != P) && (P == it) && !(P != it), "an iterator equals the node it points to");
    vf_check((ic == P) && !(ic != P) && (P == ic) && !(P != ic), "an iterator equals the node it points to");
    for (unsigned j = 0; j < K; ++j) {
      bcl::ChainIterator<Node> o((C1 *)&nodes[j]); bcl::ChainIteratorC<Node> oc((const C1 *)&nodes[j]);
      vf_check((it == o) == (cur == j) && (it != o) == (cur != j) && (ic == oc) == (cur == j) && (ic != oc) == (cur != j), "iterators are equal iff they are at one node");
      vf_check((it == &nodes[j]) == (cur == j) && (ic != &nodes[j]) == (cur != j) && (&nodes[j] == it) == (cur == j) && (&nodes[j] != ic) == (cur != j) && (&nodes[j] != it) == (cur != j) && (&nodes[j] == ic) == (cur == j), "iterator equals a node iff it is there");
    }
    vf_check(it.getNext() == ptr(m.succ(cur)) && ic.getNext() == ptr(m.succ(cur)) && it.getPrev() == ptr(m.pred(cur)) && ic.getPrev() == ptr(m.pred(cur)), "neighbours");
    vf_check((bool)it && (bool)ic, "not at the end");
    unsigned k = vf_choose(4, "step"); uint8_t to = k < 2 ? m.succ(cur) : m.pred(cur);
    bcl::ChainIterator<Node> old = it; bcl::ChainIteratorC<Node> oldc = ic;
    if (!cst) {
      if (k == 0) { bcl::ChainIterator<Node> &r = ++it; vf_check(&r == &it, "returns itself"); }
      else if (k == 1) { bcl::ChainIterator<Node> r = it++; vf_check(r == old, "post form returns the old position"); }
      else if (k == 2) { bcl::ChainIterator<Node> &r = --it; vf_check(&r == &it, "returns itself"); }
      else { bcl::ChainIterator<Node> r = it--; vf_check(r == old, "post form returns the old position"); }
      ic = bcl::ChainIteratorC<Node>((const C1 *)ptr(to));
    } else {
      if (k == 0) { bcl::ChainIteratorC<Node> &r = ++ic; vf_check(&r == &ic, "returns itself"); }
      else if (k == 1) { bcl::ChainIteratorC<Node> r = ic++; vf_check(r == oldc, "post form returns the old position"); }
      else if (k == 2) { bcl::ChainIteratorC<Node> &r = --ic; vf_check(&r == &ic, "returns itself"); }
      else { bcl::ChainIteratorC<Node> r = ic--; vf_check(r == oldc, "post form returns the old position"); }
      it = (C1 *)ptr(to);
    }
    cur = to;
    vf_check((bool)it == (cur < K) && (bool)ic == (cur < K), "an iterator is true iff it is at a node");
    if (cur == K) { vf_check(it == (Node *)nullptr && ic == (Node *)nullptr, "past the end"); vf_reach("end"); end = true; break; }
  }
  if (!end) vf_reach("inside");
  same(m);
}
// iterating from the first node of a chain visits exactly its nodes, in order, and back
VF_ENTRY(chain_walk) {
  K = vf_param("k", 4);
  Model m; mk(m);
  uint8_t a = vf_fix(vf_in<uint8_t>(0, K - 1, "start")); vf_assume(m.pred(a) == K);
  uint8_t cur = a, last = a; unsigned n = 0; uint8_t seen = 0;
  for (bcl::ChainIterator<Node> it((C1 *)ptr(a)); it; ++it) {
    vf_check(&*it == ptr(cur), "order of the walk"); vf_check(!((seen >> (cur & 7)) & 1), "no node is visited twice");
    seen |= 1u << (cur & 7); last = cur; cur = m.succ(cur); ++n;
    vf_check(n <= K, "walk ends");
  }
  vf_check(cur == K, "the walk covers the whole chain");
  vf_reach(n > 2 ? "walk3" : "walk");
  cur = last; unsigned b = 0;
  for (bcl::ChainIteratorC<Node> it((const C1 *)ptr(last)); it; it--) { vf_check(&*it == ptr(cur), "order of the backward walk"); cur = m.pred(cur); ++b; vf_check(b <= K, "walk ends"); }
  vf_check(b == n, "forward and backward walks visit the same nodes");
}
