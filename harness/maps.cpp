#include "vf.h"
#include <map>
#include <vector>
#include <list>
#include <set>
#include <string>
#include <memory>
#include <bcl/cell.h>
#include <bcl/trait.h>
#include <bcl/tagged.h>
#include <bcl/tuple_utils.h>
#include <bcl/convertible_pair.h>
struct K1 { typedef int ValueType; }; struct K2 { typedef int ValueType; }; struct K3 { typedef uint8_t ValueType; }; struct K4 { typedef uint64_t ValueType; }; struct K5 { typedef int ValueType; };
typedef bcl::StaticMap<K1, K2, K3, K4, K5> Map5;
template <class K> struct Id; template <> struct Id<K1> { enum { v = 1 }; }; template <> struct Id<K2> { enum { v = 2 }; }; template <> struct Id<K3> { enum { v = 3 }; }; template <> struct Id<K4> { enum { v = 4 }; }; template <> struct Id<K5> { enum { v = 5 }; };
struct Vals { uint64_t v[5]; };
static Vals anyVals() { Vals r; r.v[0] = (uint64_t)(int64_t)vf_any<int>("v1"); r.v[1] = (uint64_t)(int64_t)vf_any<int>("v2"); r.v[2] = vf_any<uint8_t>("v3"); r.v[3] = vf_any<uint64_t>("v4"); r.v[4] = (uint64_t)(int64_t)vf_any<int>("v5"); return r; }
struct Visit { int keys[8]; uint64_t vals[8]; void *addr[8]; unsigned n = 0;
  template <class C> void operator()(C *c) { vf_check(n < 8, "number of cells"); typedef typename C::CellKey K; keys[n] = Id<K>::v; vals[n] = (uint64_t)c->template value<K>(); addr[n] = (void *)&c->template value<K>(); ++n; } };
struct Keys { int keys[8]; unsigned n = 0; template <class C> void operator()() { vf_check(n < 8, "number of cells"); keys[n++] = Id<typename C::CellKey>::v; } };
static void same(const Map5 &c, const Vals &e) {
  Map5 &m = const_cast<Map5 &>(c);
  vf_check((uint64_t)(int64_t)c.value<K1>() == e.v[0] && (uint64_t)(int64_t)m.value<K1>() == e.v[0] && (uint64_t)(int64_t)m[K1()] == e.v[0], "a value is found under its key");
  vf_check((uint64_t)(int64_t)c.value<K2>() == e.v[1] && (uint64_t)(int64_t)m.value<K2>() == e.v[1] && (uint64_t)(int64_t)c[K2()] == e.v[1], "a value is found under its key");
  vf_check(c.value<K3>() == e.v[2] && m.value<K3>() == e.v[2] && m[K3()] == e.v[2], "a value is found under its key");
  vf_check(c.value<K4>() == e.v[3] && m.value<K4>() == e.v[3] && c[K4()] == e.v[3], "a value is found under its key");
  vf_check((uint64_t)(int64_t)c.value<K5>() == e.v[4] && (uint64_t)(int64_t)m.value<K5>() == e.v[4] && (uint64_t)(int64_t)m[K5()] == e.v[4], "a value is found under its key");
}
static Map5 build(const Vals &e) { return Map5((int)e.v[0], (int)e.v[1], (uint8_t)e.v[2], e.v[3], (int)e.v[4]); }
VF_ENTRY(map_access) {
  Vals e = anyVals(); Map5 m = build(e); same(m, e);
  unsigned ops = vf_param("ops", 2);
  for (unsigned i = 0; i < ops; ++i) {
    Vals o = anyVals(); unsigned k = vf_choose(5, "key"); bool idx = vf_bool("index");
    switch (k) { case 0: (idx ? m[K1()] : m.value<K1>()) = (int)o.v[0]; break; case 1: (idx ? m[K2()] : m.value<K2>()) = (int)o.v[1]; break; case 2: (idx ? m[K3()] : m.value<K3>()) = (uint8_t)o.v[2]; break; case 3: (idx ? m[K4()] : m.value<K4>()) = o.v[3]; break; case 4: (idx ? m[K5()] : m.value<K5>()) = (int)o.v[4]; break; }
    e.v[k] = o.v[k]; same(m, e);
  }
  Visit v; m.for_each(v); Visit cv; const Map5 &cm = m; cm.for_each(cv); Keys ks; Map5::for_each_key(ks);
  vf_check(v.n == 5 && cv.n == 5 && ks.n == 5, "every cell is visited once");
  for (unsigned i = 0; i < 5; ++i) { vf_check(v.keys[i] == (int)i + 1 && cv.keys[i] == (int)i + 1 && ks.keys[i] == (int)i + 1, "cells are visited in the declared order"); vf_check(v.vals[i] == e.v[i] && cv.vals[i] == e.v[i] && v.addr[i] == cv.addr[i], "each cell is visited with its own value"); }
  Vals z = anyVals(); Map5 c(m), d = build(z); same(c, e); same(d, z); d = m; same(d, e); m.value<K4>() = z.v[3]; m.value<K1>() = (int)z.v[0]; same(c, e); same(d, e); vf_reach("visited");
  vf_check((Map5::empty() == false && bcl::StaticMap<>::empty() == true && bcl::IsCellExist<Map5, K3>::value && !bcl::IsCellExist<Map5, Vals>::value), "emptiness and presence of keys");
}
typedef bcl::StaticMap<K4, K2, K3> Map3;
VF_ENTRY(map_transfer) {
  Vals e = anyVals(), z = anyVals(); Map5 m = build(e); Map3 t(z.v[3], (int)z.v[1], (uint8_t)z.v[2]); Map5 w = build(z);
  switch (vf_choose(4, "how")) {
  case 0: t.for_each(bcl::CopyToCellFunctor<Map5>(&m)); same(m, e); break;
  case 1: m.for_each(bcl::CopyFromCellFunctor<Map3>(&t)); same(m, e); break;
  case 2: t.for_each(bcl::MoveToCellFunctor<Map5>(&m)); break;
  case 3: m.for_each(bcl::MoveFromCellFunctor<Map3>(&t)); break;
  }
  vf_check(t.value<K4>() == e.v[3] && (uint64_t)(int64_t)t.value<K2>() == e.v[1] && t.value<K3>() == e.v[2], "common cells are transferred");
  Map3 u(e.v[3], (int)e.v[1], (uint8_t)e.v[2]);
  if (vf_bool("wider")) w.for_each(bcl::CopyToCellFunctor<Map3>(&u)); else u.for_each(bcl::CopyFromCellFunctor<Map5>(&w));
  Vals x = z; x.v[1] = e.v[1]; x.v[2] = e.v[2]; x.v[3] = e.v[3]; same(w, x); vf_reach("transferred");
}
struct P1 { typedef int *ValueType; }; struct P2 { typedef int ValueType; }; struct P3 { typedef uint64_t *ValueType; };
struct Om { int id; Om(int i = 0) : id(i) {} Om(Om &&o) : id(o.id) { o.id = -1; } Om &operator=(Om &&o) { id = o.id; o.id = -1; return *this; } };
struct O1 { typedef Om ValueType; }; struct O2 { typedef Om ValueType; };
VF_ENTRY(map_pointers) {
  uint64_t live0 = vf_live_allocs(); { bcl::StaticMap<P1, P2, P3> m; int k = vf_any<int>("k"); m.value<P2>() = k; m.for_each(bcl::InitCellFunctor()); vf_check(!m.value<P1>() && !m.value<P3>() && m.value<P2>() == k, "pointers are reset and other cells are kept");
    bool a = vf_bool("first"), b = vf_bool("third"); if (a) m.value<P1>() = new int(k); if (b) m.value<P3>() = new uint64_t(7); m.for_each(bcl::ClearCellFunctor()); vf_check(vf_live_allocs() == live0, "every pointed object is destroyed once"); }
  int i = vf_any<int>("id1"), j = vf_any<int>("id2"); bcl::StaticMap<O1, O2> s{Om(i), Om(j)}; bcl::StaticMap<O2> t; vf_check(s.value<O1>().id == i && s.value<O2>().id == j, "values are moved to their cells");
  if (vf_bool("to")) t.for_each(bcl::MoveToCellFunctor<bcl::StaticMap<O1, O2>>(&s)); else s.for_each(bcl::MoveFromCellFunctor<bcl::StaticMap<O2>>(&t));
  vf_check(t.value<O2>().id == j && s.value<O2>().id == -1 && s.value<O1>().id == i, "common cells are moved"); bcl::StaticMap<O1, O2> q(std::move(s)); vf_check(q.value<O1>().id == i && s.value<O1>().id == -1, "moved"); vf_reach("pointers");
}
// values which differ after being moved from
struct Cm { int id; int gen; Cm(int i = 0) : id(i), gen(0) {} Cm(const Cm &o) : id(o.id), gen(o.gen) {} Cm(Cm &&o) : id(o.id), gen(o.gen) { o.id = -7; ++o.gen; } Cm &operator=(const Cm &o) { id = o.id; gen = o.gen; return *this; } Cm &operator=(Cm &&o) { id = o.id; gen = o.gen; o.id = -7; ++o.gen; return *this; } bool was(int i) const { return id == i && gen == 0; } };
struct V1 { typedef Cm ValueType; }; struct V2 { typedef std::vector<int> ValueType; }; struct V3 { typedef Cm ValueType; }; struct V4 { typedef int ValueType; };
typedef bcl::StaticMap<V1, V2, V3, V4> MapV; typedef bcl::StaticMap<V3, V2> MapW;
static bool is(const std::vector<int> &v, int a) { return v.size() == 2 && v[0] == a && v[1] == a + 1; }
VF_ENTRY(map_values) {
  int i = vf_any<int16_t>("i"), j = vf_any<int16_t>("j"), k = vf_any<int16_t>("k"); std::vector<int> vj{j, j + 1}, vk{k, k + 1};
  MapV m; m.value<V1>().id = i; m.value<V2>() = vj; m.value<V3>().id = j; m.value<V4>() = k; MapW t; const MapV &cm = m; const MapW &ct = t; bool moved = false;
  switch (vf_choose(6, "how")) {
  case 0: t.for_each(bcl::CopyToCellFunctor<MapV>(&cm)); break;
  case 1: m.for_each(bcl::CopyFromCellFunctor<MapW>(&t)); break;
  case 2: cm.for_each(bcl::CopyFromCellFunctor<MapW>(&t)); break;
  case 3: t.for_each(bcl::MoveToCellFunctor<MapV>(&m)); moved = true; break;
  case 4: m.for_each(bcl::MoveFromCellFunctor<MapW>(&t)); moved = true; break;
  case 5: { MapV c(m), d; d = m; const MapV e(d); d.value<V1>().id = k; vf_check(c.value<V1>().was(i) && is(c.value<V2>(), j) && c.value<V3>().was(j) && c.value<V4>() == k && e.value<V1>().was(i) && is(e.value<V2>(), j) && d.value<V3>().was(j) && is(d.value<V2>(), j), "a copied map holds the same values"); t.for_each(bcl::CopyToCellFunctor<MapV>(&e)); vf_check(e.value<V3>().was(j) && is(e.value<V2>(), j), "values are copied"); MapV x(std::move(c)); MapV y; y = std::move(d); vf_check(x.value<V1>().was(i) && is(x.value<V2>(), j) && x.value<V3>().was(j) && x.value<V4>() == k && y.value<V1>().was(k) && is(y.value<V2>(), j) && y.value<V4>() == k, "a moved map holds the values"); break; }
  }
  vf_check(ct.value<V3>().was(j) && is(ct.value<V2>(), j), "common cells are transferred"); vf_check(cm.value<V1>().was(i) && cm.value<V4>() == k, "other cells are kept");
  if (!moved) { vf_check(cm.value<V3>().was(j) && is(cm.value<V2>(), j), "a copy leaves its source unchanged"); t.value<V2>()[0] = k; t.value<V3>().id = k; vf_check(cm.value<V3>().was(j) && is(cm.value<V2>(), j), "copies are independent"); vf_reach("copied"); } else vf_reach("moved");
  typedef bcl::StaticTypeMap<Cm, std::vector<int>, int> TM; Cm v1(i); TM p(v1, vk, k); vf_check(v1.was(i) && is(vk, k), "arguments are copied"); TM q(p), r(Cm(j), std::vector<int>(vj), i); r = p; vf_check(p.value<Cm>().was(i) && is(p.value<std::vector<int>>(), k) && p.value<int>() == k && q.value<Cm>().was(i) && is(q.value<std::vector<int>>(), k) && r.value<Cm>().was(i) && is(r.value<std::vector<int>>(), k), "copies of a map keyed by types"); TM s(std::move(q)); vf_check(s.value<Cm>().was(i) && is(s.value<std::vector<int>>(), k) && s.value<int>() == k, "a moved map keyed by types");
}
// ---- maps keyed by types and traits
template <class T> struct Tid; template <> struct Tid<int> { enum { v = 1 }; }; template <> struct Tid<uint64_t> { enum { v = 2 }; }; template <> struct Tid<uint8_t> { enum { v = 3 }; };
struct TV { int keys[4]; uint64_t vals[4]; unsigned n = 0; template <class T> void operator()(T &v) { typedef typename std::remove_const<T>::type U; vf_check(n < 4, "number"); keys[n] = Tid<U>::v; vals[n++] = (uint64_t)v; } };
struct TK { int keys[4]; unsigned n = 0; template <class T> void operator()() { vf_check(n < 4, "number"); keys[n++] = Tid<T>::v; } };
VF_ENTRY(type_map) {
  typedef bcl::StaticTypeMap<int, uint64_t, uint8_t> M; int a = vf_any<int>("a"); uint64_t b = vf_any<uint64_t>("b"); uint8_t c = vf_any<uint8_t>("c");
  M m(a, b, c); const M &cm = m; vf_check(m.value<int>() == a && m.value<uint64_t>() == b && m.value<uint8_t>() == c, "the i-th argument initializes the value of the i-th type");
  vf_check(cm.value<int>() == a && cm.value<uint64_t>() == b && cm.value<uint8_t>() == c && cm[int()] == a && m[uint64_t()] == b, "a value is found by its type");
  TV v, w; m.for_each(v); cm.for_each(w); TK k; M::for_each_key(k); vf_check(v.n == 3 && w.n == 3 && k.n == 3, "every value is visited once");
  unsigned seen = 0; for (unsigned i = 0; i < 3; ++i) { uint64_t e = v.keys[i] == 1 ? (uint64_t)a : v.keys[i] == 2 ? b : c; vf_check(v.vals[i] == e && w.vals[i] == e && w.keys[i] == v.keys[i] && k.keys[i] == v.keys[i], "with its own value"); seen |= 1u << v.keys[i]; } vf_check(seen == 14, "every type once");
  uint64_t d = vf_any<uint64_t>("d"); M n(m); n.value<uint64_t>() = d; n[uint8_t()] = (uint8_t)d; vf_check(m.value<uint64_t>() == b && n.value<uint64_t>() == d && n.value<uint8_t>() == (uint8_t)d && n.value<int>() == a && m.value<uint8_t>() == c, "copies are independent");
  bcl::StaticTypeMap<int, int *, Om> x(a, &a, Om(3)); vf_check(x.value<int>() == a && x.value<int *>() == &a && x.value<Om>().id == 3, "values of unrelated types"); vf_reach("types");
}
struct TA {}; struct TB {}; struct TC {}; struct TE {};
template <class T> struct Sid; template <> struct Sid<TA> { enum { v = 1 }; }; template <> struct Sid<TB> { enum { v = 2 }; }; template <> struct Sid<TC> { enum { v = 3 }; }; template <> struct Sid<TE> { enum { v = 4 }; };
struct SV { int keys[8]; int vals[8]; unsigned n = 0; template <class T> void operator()(const int &v) { vf_check(n < 8, "number"); keys[n] = Sid<T>::v; vals[n++] = v; } };
struct SK { int keys[8]; unsigned n = 0; template <class T> void operator()() { vf_check(n < 8, "number"); keys[n++] = Sid<T>::v; } };
typedef bcl::TraitDescriptor<TA, bcl::TraitAlternative<bcl::TraitUnion<TB, TC>, bcl::TraitUnion<TB, TE>>> MD;
VF_ENTRY(trait_map) {
  typedef bcl::StaticTraitMap<int, MD> M; M m; int e[5]; for (int i = 1; i < 5; ++i) e[i] = vf_any<int>("v");
  m.value<TA>() = e[1]; m[TB()] = e[2]; m.value<TC>() = e[3]; m.value<TE>() = e[4]; const M &cm = m;
  unsigned w = vf_choose(5, "write"); if (w) { int x = vf_any<int>("x"); e[w] = x; switch (w) { case 1: m.value<TA>() = x; break; case 2: m.value<TB>() = x; break; case 3: m[TC()] = x; break; case 4: m[TE()] = x; break; } }
  vf_check(cm.value<TA>() == e[1] && cm[TB()] == e[2] && cm.value<TC>() == e[3] && cm.value<TE>() == e[4] && m[TA()] == e[1], "each trait has its own value");
  SV v, u; m.for_each(v); cm.for_each(u); SK k; M::for_each_key(k); vf_check(v.n == 4 && u.n == 4 && k.n == 4, "every trait is visited once"); unsigned seen = 0;
  for (unsigned i = 0; i < 4; ++i) { vf_check(v.vals[i] == e[v.keys[i]] && u.vals[i] == e[v.keys[i]] && u.keys[i] == v.keys[i] && k.keys[i] == v.keys[i], "with its own value"); seen |= 1u << v.keys[i]; } vf_check(seen == 30, "every trait once");
  // traits are distributed to the cells of a map
  unsigned bits = 0; MD d; if (vf_bool("A")) d.set<TA>(), bits |= 1; if (vf_bool("B")) d.set<TB>(), bits |= 2; if (vf_bool("C")) d.set<TC>(), bits |= 4; else if (vf_bool("E")) d.set<TE>(), bits |= 8;
  typedef bcl::StaticTraitMap<std::vector<MD *>, MD> L; L l; d.for_each(bcl::TraitMapConstructor<MD, L>(d, l));
  vf_check(l.value<TA>().size() == (bits & 1) && l.value<TB>().size() == (bits >> 1 & 1) && l.value<TC>().size() == (bits >> 2 & 1) && l.value<TE>().size() == (bits >> 3 & 1), "a descriptor is stored under exactly its set traits");
  if (bits & 2) vf_check(l.value<TB>()[0] == &d, "the descriptor itself is stored"); if (bits == 7) vf_reach("stored"); vf_reach("traits");
}
// ---- tags
struct ga {}; struct gb {}; struct gc {}; struct gd {}; struct ge {};
typedef bcl::tagged<int, ga, gb> T1; typedef bcl::tagged<int, gc> T2; typedef bcl::tagged<uint8_t, gd, ge> T3;
struct Fe { int tag[4]; uint64_t v[4]; unsigned n = 0; template <class T> void operator()(const typename T::type &x) { vf_check(n < 4, "number"); tag[n] = std::is_same<T, T1>::value ? 1 : std::is_same<T, T2>::value ? 2 : 3; v[n++] = (uint64_t)x; } };
VF_ENTRY(tagged_access) {
  int a = vf_any<int>("a"), b = vf_any<int>("b"); uint8_t c = vf_any<uint8_t>("c"); int x = vf_any<int>("x");
  typedef bcl::tagged_pair<T1, T2> P; P p(a, b); const P &cp = p;
  vf_check(p.get<ga>() == a && p.get<gb>() == a && p.get<gc>() == b && cp.get<ga>() == a && cp.get<gc>() == b && p.first == a && p.second == b, "a tag names its element");
  unsigned w = vf_choose(3, "write"); if (w == 0) p.get<gb>() = x; else if (w == 1) p.get<gc>() = x; else p.get<ga>() = x;
  vf_check(p.first == (w == 1 ? a : x) && p.second == (w == 1 ? x : b), "a write reaches the named element only");
  P q(x, x); P &r = (q = p); vf_check(&r == &q && q.first == p.first && q.second == p.second, "assignment"); q = std::make_pair(b, a); vf_check(q.get<ga>() == b && q.get<gc>() == a, "assignment of an ordinary pair"); P q2(q); vf_check(q2.get<gb>() == b && q2.get<gc>() == a, "copy");
  typedef bcl::tagged_tuple<T1, T2, T3> T; T t(a, b, c); const T &ct = t;
  vf_check(t.get<ga>() == a && t.get<gb>() == a && t.get<gc>() == b && t.get<gd>() == c && t.get<ge>() == c && ct.get<gb>() == a && ct.get<gc>() == b && ct.get<ge>() == c, "a tag names its element");
  unsigned k = vf_choose(3, "element"); if (k == 0) t.get<ga>() = x; else if (k == 1) t.get<gc>() = x; else t.get<ge>() = (uint8_t)x;
  vf_check(std::get<0>(t) == (k == 0 ? x : a) && std::get<1>(t) == (k == 1 ? x : b) && std::get<2>(t) == (k == 2 ? (uint8_t)x : c), "a write reaches the named element only");
  Fe f, g; bcl::for_each(t, f); bcl::for_each(ct, g); vf_check(f.n == 3 && g.n == 3, "every element is visited once"); for (unsigned i = 0; i < 3; ++i) vf_check(f.tag[i] == (int)i + 1 && g.tag[i] == (int)i + 1, "in order");
  vf_check(f.v[0] == (uint64_t)t.get<ga>() && f.v[1] == (uint64_t)t.get<gc>() && f.v[2] == (uint64_t)t.get<gd>() && g.v[0] == f.v[0] && g.v[1] == f.v[1] && g.v[2] == f.v[2], "with its own value");
  T s(b, a, (uint8_t)x); s = t; vf_check(s.get<ga>() == t.get<ga>() && s.get<gc>() == t.get<gc>() && s.get<gd>() == t.get<gd>(), "assignment");
  vf_check((bcl::tagged_tuple_size<T>::value == 3 && !bcl::tagged_tuple_empty<T>::value && bcl::tagged_tuple_empty<bcl::tagged_tuple<>>::value), "number of elements");
  vf_check((bcl::tagged_tuple_idx<ga, T>::value == 0 && bcl::tagged_tuple_idx<gb, T>::value == 0 && bcl::tagged_tuple_idx<gc, T>::value == 1 && bcl::tagged_tuple_idx<ge, T>::value == 2), "index of a tag");
  vf_check((std::is_same<bcl::tagged_tuple_tag<1, T>::type, gc>::value && std::is_same<bcl::tagged_tuple_element<ge, T>::type, uint8_t>::value && std::is_void<bcl::get_tagged<K1, T1, T2>>::value), "lookup of tags");
  typedef bcl::add_alias_tagged<T2, ge> T4; vf_check((bcl::tags::is_alias<gc, T4>::value && bcl::tags::is_alias<ge, T4>::value && !bcl::tags::is_alias<ga, T4>::value && bcl::is_tagged<T4>::value && !bcl::is_tagged<int>::value), "aliases");
  typedef bcl::tags::get_tagged_tuple_t<int, ga, gc, gd> G; G h; h.get<ga>() = a; h.get<gc>() = b; h.get<gd>() = x; vf_check(h.get<ga>() == a && h.get<gc>() == b && h.get<gd>() == x, "tags of a homogeneous tuple"); vf_reach("tags");
}
struct Fo { uint64_t v[4]; unsigned n = 0; template <class T> void operator()(T &x) { vf_check(n < 4, "number"); v[n++] = (uint64_t)x; } };
struct Ap { uint64_t operator()(int &a, uint64_t &b, uint8_t &c) { ++a; return (uint64_t)a * 3 + b * 5 + c * 7; } uint64_t operator()(const int &a, const uint64_t &b, const uint8_t &c) { return (uint64_t)a * 3 + b * 5 + c * 7; } int &operator()(int &x) { return x; } int operator()() { return 9; } };
struct Sel { const int &operator()(const int &a, const int &b) const { return a < b ? b : a; } int *operator()(int &a, int &b) { return &a < &b ? &b : &a; } };
struct Seen { const int *at[4]; int n = 0; void operator()(const int &x) { if (n < 4) at[n] = &x; ++n; } };
struct Inc { template <class T> void operator()(T &x) { x = (T)(x + 1); } };
VF_ENTRY(tuples) {
  int a = vf_any<int16_t>("a"); uint64_t b = vf_any<uint64_t>("b"); uint8_t c = vf_any<uint8_t>("c"); std::tuple<int, uint64_t, uint8_t> t(a, b, c); const auto &ct = t;
  Fo f, g; bcl::for_each(t, f); bcl::for_each(ct, g); vf_check(f.n == 3 && g.n == 3 && f.v[0] == (uint64_t)a && f.v[1] == b && f.v[2] == c && g.v[0] == f.v[0] && g.v[1] == f.v[1] && g.v[2] == f.v[2], "every element once and in order");
  Inc inc; bcl::for_each(t, inc); vf_check(std::get<0>(t) == a + 1 && std::get<1>(t) == b + 1 && std::get<2>(t) == (uint8_t)(c + 1), "elements are visited in place");
  Ap ap; uint64_t r = bcl::forward_as_args(ct, ap); vf_check(r == (uint64_t)(a + 1) * 3 + (b + 1) * 5 + (uint8_t)(c + 1) * 7ull, "elements are passed in order"); uint64_t r2 = bcl::forward_as_args(t, ap); vf_check(r2 == r + 3 && std::get<0>(t) == a + 2, "elements are passed by reference");
  std::tuple<int> o(a); int &x = bcl::forward_as_args(o, ap); vf_check(&x == &std::get<0>(o), "the result is passed through"); std::tuple<> e; Fo z; bcl::for_each(e, z); vf_check(z.n == 0 && bcl::forward_as_args(e, ap) == 9, "an empty tuple"); vf_check((bcl::tuple_empty<std::tuple<>>::value && !bcl::tuple_empty<std::tuple<int>>::value), "emptiness");
  typedef bcl::convertible_pair<int, uint64_t> P; P p(a, b); const P &cp = p; int &pa = p; uint64_t &pb = p; const int &qa = cp; const uint64_t &qb = cp;
  vf_check(&pa == &p.first && &pb == &p.second && &qa == &p.first && &qb == &p.second && pa == a && pb == b, "a pair converts to its members"); pa = 5; pb = c; vf_check(p.first == 5 && p.second == c, "write through"); P q(p); vf_check(q.first == 5 && q.second == c, "copy"); q = std::pair<int, uint64_t>(a, b); vf_check(q.first == a && q.second == b, "assignment of an ordinary pair"); P &rp = (q = p); vf_check(&rp == &q && q.first == 5 && q.second == c, "assignment");
  { std::tuple<int, int> two(a, (int)c); const std::tuple<int, int> &ctwo = two; Sel sel; const int &m = bcl::forward_as_args(ctwo, sel); vf_check(&m == (a < (int)c ? &std::get<1>(two) : &std::get<0>(two)), "elements of a constant tuple are passed themselves"); Seen seen; bcl::for_each(ctwo, seen); vf_check(seen.n == 2 && seen.at[0] == &std::get<0>(two) && seen.at[1] == &std::get<1>(two), "elements of a constant tuple are visited in place"); }
  std::pair<int, uint64_t> sp(p); vf_check(sp.first == 5 && sp.second == c, "conversion to an ordinary pair"); P mv(std::move(sp)); vf_check(mv.first == 5 && mv.second == c, "move"); vf_reach("tuples");
}
// ---- uniform insertion in containers
VF_ENTRY(inserters) {
  int a = vf_any<int>("a"), b = vf_any<int>("b"); int8_t k1 = vf_any<int8_t>("k1"), k2 = vf_any<int8_t>("k2");
  std::vector<int> v; bcl::PushBackInserter<int, std::vector<int>>::insert(a, v); bcl::PushBackInserter<int, std::vector<int>>::insert(b, v); vf_check(v.size() == 2 && v[0] == a && v[1] == b, "values are appended in order");
  (void)k1; (void)k2; vf_reach("ins");
}
// ---- lists of types
template <class T> struct TypeNo; template <> struct TypeNo<int> { enum { v = 1 }; }; template <> struct TypeNo<char> { enum { v = 2 }; }; template <> struct TypeNo<long> { enum { v = 3 }; };
struct Types { int n = 0, seen[8]; template <class T> void operator()() { if (n < 8) seen[n] = TypeNo<T>::v; ++n; } };
VF_ENTRY(type_list_algebra) {
  Types tv; bcl::TypeList<int, char, int, long, char>::for_each_type(tv); vf_check(tv.n == 5 && tv.seen[0] == 1 && tv.seen[1] == 2 && tv.seen[2] == 1 && tv.seen[3] == 3 && tv.seen[4] == 2, "every type is visited in order"); Types te; bcl::TypeList<>::for_each_type(te); vf_check((te.n == 0) & (bcl::TypeList<>::size_of() == 0), "an empty list");
  typedef bcl::TypeList<int, char, int, long, char> D;
  vf_check((std::is_same<bcl::MergeTypeLists<bcl::TypeList<int, char>, bcl::TypeList<long>>::Type, bcl::TypeList<int, char, long>>::value), "merge");
  vf_check((std::is_same<bcl::IntersectTypeLists<bcl::TypeList<int, char, long>, bcl::TypeList<long, short, int>>::Type, bcl::TypeList<int, long>>::value), "intersection");
  typedef bcl::RemoveDuplicate<D>::Type U; vf_check((U::size_of() == 3 && bcl::IsTypeExist<int, U>::value && bcl::IsTypeExist<char, U>::value && bcl::IsTypeExist<long, U>::value), "each type once");
  vf_check((std::is_same<bcl::RemoveFromTypeList<char, D>::Type, bcl::TypeList<int, int, long>>::value), "removal"); vf_check((D::index_of<long>() == 3 && D::size_of() == 5), "position");
  vf_check((std::is_same<bcl::ReverseCell<Map3>::Result, bcl::StaticMap<K3, K2, K4>>::value), "reversed map");
  vf_check((std::is_same<bcl::ForwardTypeList<bcl::StaticMap, bcl::TypeList<K1, K2>>::Type, bcl::StaticMap<K1, K2>>::value), "types are passed to a template"); vf_reach("algebra");
}
