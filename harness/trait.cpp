#include "vf.h"
#include <map>
#include <string>
#include <bcl/trait.h>
// The object of a descriptor is filled so that an arbitrary, symbolic set of its traits is set.  How a
// set trait is represented is found out by setting each trait alone (nothing is assumed about the layout).
#define TRAITS(X) X(A) X(S) X(M) X(W) X(X1) X(X2) X(X3) X(P) X(Q) X(B) X(C1) X(C2) X(C3)
struct A; struct S; struct M; struct W; struct X1; struct X2; struct X3; struct P; struct Q; struct B; struct C1; struct C2; struct C3;
enum { iA, iS, iM, iW, iX1, iX2, iX3, iP, iQ, iB, iC1, iC2, iC3, NT };
template <class T> struct Ix;
#define X(n) struct n {}; template <> struct Ix<n> { enum { v = i##n }; };
TRAITS(X)
#undef X
template <class... T> using Alt = bcl::TraitAlternative<T...>;
template <class... T> using Un = bcl::TraitUnion<T...>;
// one group of alternatives with a common trait, one of plain alternatives, one of compatible traits, two single ones, overlapping unions
typedef bcl::TraitDescriptor<A, Alt<Un<S, M>, Un<S, W>>, Alt<X1, X2, X3>, Un<P, Q>, B, Alt<Un<C1, C2>, Un<C2, C3>>> TD;
static const unsigned conflicts[NT] = { 0, 0, 1u << iW, 1u << iM, 1u << iX2 | 1u << iX3, 1u << iX1 | 1u << iX3, 1u << iX1 | 1u << iX2, 0, 0, 0, 1u << iC3, 0, 1u << iC1 };
static const unsigned groups[NT] = { 1u << iA, 7u << iS, 7u << iS, 7u << iS, 7u << iX1, 7u << iX1, 7u << iX1, 3u << iP, 3u << iP, 1u << iB, 7u << iC1, 7u << iC1, 7u << iC1 };
// the same names grouped in another way
typedef bcl::TraitDescriptor<Alt<A, M>, X1, X2, Alt<Un<P, S>, Q>> TE;
static const unsigned inE = 1u << iA | 1u << iM | 1u << iX1 | 1u << iX2 | 1u << iP | 1u << iS | 1u << iQ;
static const unsigned conflictsE[NT] = { 1u << iM, 1u << iQ, 1u << iA, 0, 0, 0, 0, 1u << iQ, 1u << iP | 1u << iS };
struct Snap { unsigned char b[64]; };
template <class D> static Snap snap(const D &d) { static_assert(sizeof(D) <= 64, "size"); Snap s; for (unsigned i = 0; i < 64; ++i) s.b[i] = 0; __builtin_memcpy(s.b, &d, sizeof(D)); return s; }
template <class D, class T> static void alone(Snap &acc, const Snap &empty, unsigned bits) {
  D d; d.template set<T>(); Snap s = snap(d); uint64_t on = (bits >> Ix<T>::v) & 1; unsigned char m = (unsigned char)(0 - on);
  for (unsigned i = 0; i < sizeof(D); ++i) acc.b[i] ^= (unsigned char)((s.b[i] ^ empty.b[i]) & m);
}
template <class D, class... T> static void fill(D &d, unsigned bits) {
  Snap e = snap(d), acc = e; int x[] = {(alone<D, T>(acc, e, bits), 0)...}; (void)x; __builtin_memcpy(static_cast<void *>(&d), acc.b, sizeof(D));
}
static void fillD(TD &d, unsigned bits) { fill<TD, A, S, M, W, X1, X2, X3, P, Q, B, C1, C2, C3>(d, bits); }
static void fillE(TE &d, unsigned bits) { fill<TE, A, M, X1, X2, P, S, Q>(d, bits); }
template <class D, class... T> static unsigned bitsOf(const D &d) { unsigned r = 0; int x[] = {(r |= (unsigned)d.template is<T>() << Ix<T>::v, 0)...}; (void)x; return r; }
static unsigned bitsD(const TD &d) { return bitsOf<TD, A, S, M, W, X1, X2, X3, P, Q, B, C1, C2, C3>(d); }
static unsigned bitsE(const TE &d) { return bitsOf<TE, A, M, X1, X2, P, S, Q>(d); }
static bool allowed(unsigned bits, const unsigned *cf) { unsigned bad = 0; for (unsigned i = 0; i < NT; ++i) bad |= (0u - ((bits >> i) & 1)) & cf[i] & bits; return bad == 0; }
static unsigned anyBits(const unsigned *cf, unsigned universe) { unsigned b = vf_any<uint16_t>("set_traits") & universe; vf_assume(allowed(b, cf)); return b; }
static const unsigned ALL = (1u << NT) - 1;
struct Collect { unsigned seen = 0, n = 0, twice = 0; template <class T> void operator()() { twice |= seen & (1u << Ix<T>::v); seen |= 1u << Ix<T>::v; ++n; } };
template <class T> static void setOne(TD &d, unsigned b) { d.set<T>(); vf_check(bitsD(d) == ((b & ~conflicts[Ix<T>::v]) | 1u << Ix<T>::v), "setting a trait sets it and unsets the traits which conflict with it, and only those"); }
template <class T> static void unsetOne(TD &d, unsigned b) { d.unset<T>(); vf_check(bitsD(d) == (b & ~(1u << Ix<T>::v)), "unsetting a trait changes this trait only"); }
template <class T> static void unsetGroup(TD &d, unsigned b) { d.unset_group<T>(); vf_check(bitsD(d) == (b & ~groups[Ix<T>::v]), "unsetting a group unsets all of its traits and no other"); }
// every state, every operation
VF_ENTRY(trait_step) {
  TD d; vf_check(bitsD(d) == 0, "all traits are unset at first"); unsigned b = anyBits(conflicts, ALL); fillD(d, b);
  vf_check(bitsD(d) == b, "traits are reported independently of each other");
  unsigned op = vf_choose(4, "op"), t = op < 3 ? vf_choose(NT, "trait") : 0;
#define X(n) case i##n: if (op == 0) setOne<n>(d, b); else if (op == 1) unsetOne<n>(d, b); else unsetGroup<n>(d, b); break;
  if (op < 3) { switch (t) { TRAITS(X) } } else { d.unset_all(); vf_check(bitsD(d) == 0, "all traits are unset"); }
#undef X
  TD o; fillD(o, bitsD(d)); vf_check(o == d && d == o && !(o != d), "a descriptor is equal to the one in which the same traits have been set");
  vf_check(allowed(bitsD(d), conflicts), "conflicting traits are never set together"); vf_reach("step");
}
template <class... T> static void many(TD &d, unsigned b) {
  unsigned k = 0, c = 0; int x[] = {(k |= 1u << Ix<T>::v, c |= conflicts[Ix<T>::v], 0)...}; (void)x;
  vf_check((d.is<T...>() == ((b & k) == k)), "all traits of a list are set"); vf_check((d.is_any<T...>() == ((b & k) != 0)), "some trait of a list is set");
  vf_check((bcl::trait::Is<T...>::is(d) == ((b & k) == k) && bcl::trait::IsAny<T...>::is_any(d) == ((b & k) != 0)), "list of traits is checked");
  unsigned op = vf_choose(5, "op");
  if (op == 0) { d.set<T...>(); vf_check(bitsD(d) == ((b & ~c) | (k & ~c)), "setting several traits sets them all"); }
  else if (op == 1) { d.unset<T...>(); vf_check(bitsD(d) == (b & ~k), "unsetting several traits unsets them all and no other"); }
  else if (op == 2) { d.unset_group<T...>(); unsigned g = 0; int y[] = {(g |= groups[Ix<T>::v], 0)...}; (void)y; vf_check(bitsD(d) == (b & ~g), "unsetting groups"); }
  else if (op == 3) { bcl::trait::unset<T...>(d); vf_check(bitsD(d) == (b & ~k), "unsetting several traits unsets them all and no other"); }
  else { bcl::trait::set<T...>(d); vf_check(bitsD(d) == ((b & ~c) | (k & ~c)), "setting several traits sets them all"); }
}
// several traits which partly conflict with each other: at most one of these is set, each other one is
template <class... T> static void clash(TD &d, unsigned b) {
  unsigned k = 0, c = 0; int x[] = {(k |= 1u << Ix<T>::v, c |= conflicts[Ix<T>::v], 0)...}; (void)x;
  if (vf_bool("free")) bcl::trait::set<T...>(d); else d.set<T...>();
  unsigned r = bitsD(d); vf_check(allowed(r, conflicts), "conflicting traits are never set together"); vf_check((r & k & ~c) == (k & ~c), "traits without a conflict are set");
  vf_check((r & ~k & c) == 0, "traits in conflict with the set ones are unset"); vf_check((r & ~(k | c)) == (b & ~(k | c)), "other traits are left as they are"); vf_reach("clash");
}
VF_ENTRY(trait_clash) {
  TD d; unsigned b = anyBits(conflicts, ALL); fillD(d, b);
  switch (vf_choose(7, "list")) {
  case 0: clash<M, W>(d, b); break; case 1: clash<S, W, M>(d, b); break; case 2: clash<X1, A, X3>(d, b); break; case 3: clash<X3, X2, X1>(d, b); break;
  case 4: clash<C1, C2, C3>(d, b); break; case 5: clash<C3, B, C1>(d, b); break; case 6: clash<W, X2, M, Q, X1, C3>(d, b); break;
  }
}
VF_ENTRY(trait_lists) {
  TD d; unsigned b = anyBits(conflicts, ALL); fillD(d, b);
  switch (vf_choose(6, "list")) {
  case 0: many<A, B>(d, b); break; case 1: many<S, M>(d, b); break; case 2: many<W, S, X2>(d, b); break;
  case 3: many<P, Q, C2, C3, A>(d, b); break; case 4: many<C1, C2>(d, b); break; case 5: many<B, X3, M, P>(d, b); break;
  }
  vf_check(allowed(bitsD(d), conflicts), "conflicting traits are never set together");
  TD copy(d); vf_check(copy == d && !(copy != d) && bitsD(copy) == bitsD(d), "a copy has the same traits");
  unsigned b2 = anyBits(conflicts, ALL); TD o; fillD(o, b2); vf_check((o == d) == (b2 == bitsD(d)) && (o != d) == (b2 != bitsD(d)), "equal iff the same traits are set");
  o = d; vf_check(bitsD(o) == bitsD(d), "assignment transfers traits"); vf_reach("lists");
}
template <class T> static void conflictsOf(const TD &d, unsigned b) {
  Collect c; d.for_each_conflict<T>(c); vf_check(c.seen == (b & conflicts[Ix<T>::v]) && !c.twice, "conflicting traits which are set are enumerated");
  Collect g; d.for_each_in_group<T>(g); vf_check(g.seen == (b & groups[Ix<T>::v]) && !g.twice, "traits of a group which are set are enumerated");
}
struct Text { std::string s; Text &operator<<(const std::string &t) { s += t; return *this; } };
VF_ENTRY(trait_enum) {
  TD d; unsigned b = anyBits(conflicts, ALL); fillD(d, b);
  unsigned op = vf_choose(3, "op");
  if (op == 0) { Collect c; d.for_each(c); vf_check(c.seen == b && !c.twice, "exactly the traits which are set are enumerated, each once"); vf_reach("enumerated"); }
  else if (op == 1) { Collect c; TD::for_each_available(c); vf_check(c.seen == ALL && c.n == NT, "each available trait is enumerated once"); }
  else switch (vf_choose(NT, "trait")) {
#define X(n) case i##n: conflictsOf<n>(d, b); break;
    TRAITS(X)
#undef X
  }
}
VF_ENTRY(trait_transfer) {
  TD d; unsigned b = anyBits(conflicts, ALL); fillD(d, b); TE e; unsigned be = anyBits(conflictsE, inE); fillE(e, be); vf_check(bitsE(e) == be, "traits are reported independently of each other");
  unsigned op = vf_choose(3, "op");
  if (op == 0) { bcl::trait::update(d, e); unsigned x = bitsE(e); if (allowed(b & inE, conflictsE)) { vf_check(x == (b & inE), "common traits are updated and other ones are ignored"); vf_reach("updated"); } vf_check((x & ~b) == 0, "only traits which are set in the source are set"); }
  else if (op == 1) { bcl::trait::set(d, e); unsigned x = bitsE(e), w = b & inE, c = 0; for (unsigned i = 0; i < NT; ++i) c |= (0u - ((w >> i) & 1)) & conflictsE[i];
    if (allowed(w, conflictsE)) { vf_check(x == ((be & ~c) | w), "traits of the source are added"); vf_reach("added"); } vf_check((x & ~(be | w)) == 0, "no other traits are set"); }
  else { bcl::trait::update(e, d); unsigned x = bitsD(d), c = 0; for (unsigned i = 0; i < NT; ++i) c |= (0u - ((be >> i) & 1)) & conflicts[i]; if (allowed(be, conflicts)) vf_check(x == (((b & ~inE) & ~c) | be), "traits unknown to the source are kept"); }
  vf_check(allowed(bitsE(e), conflictsE) && allowed(bitsD(d), conflicts), "conflicting traits are never set together");
}
// a descriptor which takes every bit of the key
template <int I> struct N {};
template <int... I> struct Un8 { };
template <int K> using G8 = Alt<Un<N<K>, N<K + 1>>, Un<N<K + 2>>, Un<N<K + 1>, N<K + 3>>, N<K + 4>, N<K + 5>, Un<N<K + 6>, N<K + 7>>>;
typedef bcl::TraitDescriptor<G8<0>, G8<8>, Un<N<16>, N<17>, N<18>>, N<19>, G8<20>, N<28>, N<29>, N<30>, G8<31>, G8<39>, G8<47>, G8<55>, N<63>> Full;
template <int... I> static uint64_t fullBits(const Full &d, std::integer_sequence<int, I...>) { uint64_t r = 0; int x[] = {(r |= (uint64_t)d.is<N<I>>() << I, 0)...}; (void)x; return r; }
template <int I> static void fullStep() {
  Full d; d.set<N<I>>(); vf_check(fullBits(d, std::make_integer_sequence<int, 64>()) == 1ull << I, "each trait has its own place"); Text t, m; Full::printKey<N<I>>(t); d.print(m);
  vf_check(t.s == m.s && t.s.size() == 64, "the text shows the bits of the trait"); unsigned ones = 0; for (char c : t.s) ones += c == '1'; vf_check(ones == 1, "one bit per trait");
  d.unset<N<I>>(); vf_check(fullBits(d, std::make_integer_sequence<int, 64>()) == 0, "unset");
}
template <int... I> static void fullAll(unsigned k, std::integer_sequence<int, I...>) { int x[] = {(k == I ? fullStep<I>() : (void)0, 0)...}; (void)x; }
template <class T> static Text keyText() { Text t; Full::printKey<T>(t); return t; }
template <class... T> static void maskIs() { Text m[] = {([] { Text t; Full::printMask<T>(t); return t; })()...}, k[] = {keyText<T>()...}, all; Full::printMask<T...>(all); for (auto &t : m) { vf_check(t.s.size() == k[0].s.size() && all.s == t.s, "the traits of a group have one mask"); for (size_t i = 0; i < t.s.size(); ++i) { bool any = false; for (auto &x : k) any |= x.s[i] == '1'; vf_check((t.s[i] == '1') == any, "the mask of a group shows its traits"); } } }
VF_ENTRY(trait_masks) { maskIs<N<16>, N<17>, N<18>>(); maskIs<N<19>>(); maskIs<N<63>>(); maskIs<N<0>, N<1>, N<2>, N<3>, N<4>, N<5>, N<6>, N<7>>(); vf_reach("masks"); }
VF_ENTRY(trait_full) { fullAll(vf_choose(64, "trait"), std::make_integer_sequence<int, 64>()); vf_reach("full"); }
// ---- sets of traits with values
struct Val { static int alive; int v, tag; Val(int x, int t) : v(x), tag(t) { ++alive; } ~Val() { --alive; } Val(const Val &) = delete; };
int Val::alive = 0;
struct VA : Val { using Val::Val; }; struct VS : Val { using Val::Val; }; struct VM : Val { using Val::Val; }; struct VW : Val { using Val::Val; };
struct VX : Val { using Val::Val; };
typedef bcl::TraitDescriptor<A, Alt<Un<S, M>, Un<S, W>>, Alt<VX, X2>> TF;
template <> struct Ix<VX> { enum { v = iX1 }; };
static const unsigned conflictsF[NT] = { 0, 0, 1u << iW, 1u << iM, 1u << iX2, 1u << iX1 };
typedef std::map<bcl::TraitKey, void *> VMap;
typedef bcl::TraitSet<TF, VMap, bcl::TypeList<bcl::tagged<VA, A>, bcl::tagged<VS, S>, bcl::tagged<VM, M>, bcl::tagged<VW, W>>> TS;
static unsigned bitsF(const TF &d) { return bitsOf<TF, A, S, M, W, VX, X2>(d); }
struct Model { unsigned bits = 0; bool has[6] = {}; int val[6] = {}; };
template <class T, class V> static V *make(int x) { return new V(x, Ix<T>::v); }
template <class T, class V> static void valueIs(TS &s, const Model &m, int &cnt) {
  V *p = s.get<T>(); const V *q = static_cast<const TS &>(s).get<T>(); unsigned i = Ix<T>::v; vf_check(p == q, "the same value is found");
  vf_check((p != nullptr) == m.has[i], "a value is found exactly while it is attached"); if (p) { ++cnt; vf_check(p->v == m.val[i] && p->tag == (int)i, "each trait finds its own value"); }
}
static int compare(TS &s, const Model &m) {
  TF d = s.get(); vf_check(bitsF(d) == m.bits && bitsF((TF)s) == m.bits, "traits which are set"); int n = 0;
  valueIs<A, VA>(s, m, n); valueIs<S, VS>(s, m, n); valueIs<M, VM>(s, m, n); valueIs<W, VW>(s, m, n); valueIs<VX, VX>(s, m, n);
  return n;
}
static void drop(Model &m, unsigned bits) { for (unsigned i = 0; i < 6; ++i) if (bits >> i & 1) m.has[i] = false; m.bits &= ~bits; }
template <class T, class V> static void opOn(TS &s, Model &m, unsigned op) {
  unsigned i = Ix<T>::v;
  switch (op) {
  case 0: { int x = vf_any<int>("value"); s.set<T>(make<T, V>(x)); drop(m, conflictsF[i]); m.bits |= 1u << i; m.has[i] = true; m.val[i] = x; vf_reach("attached"); break; }
  case 1: s.set<T>(); drop(m, conflictsF[i]); m.bits |= 1u << i; break;
  case 2: s.unset<T>(); drop(m, 1u << i); break;
  case 3: { V *p = s.release<T>(); vf_check((p != nullptr) == m.has[i], "an attached value is released"); if (p) { vf_check(p->v == m.val[i], "own value"); delete p; vf_reach("released"); } m.has[i] = false; break; }
  }
}
static void anyOp(TS &s, Model &m) {
  unsigned k = vf_choose(9, "kind");
  if (k < 4) { switch (vf_choose(5, "trait")) { case 0: opOn<A, VA>(s, m, k); break; case 1: opOn<S, VS>(s, m, k); break; case 2: opOn<M, VM>(s, m, k); break; case 3: opOn<W, VW>(s, m, k); break; case 4: opOn<VX, VX>(s, m, k); break; } }
  else if (k == 4) { s.unset_all(); m = Model(); }
  else if (k == 5) { TF d; d.set<S>(); d.set<W>(); d.set<X2>(); if (vf_bool("rvalue")) s = std::move(d); else s = d; m = Model(); m.bits = 1u << iS | 1u << iW | 1u << iX2; }
  else if (k == 6) { s.set<X2, M>(); drop(m, conflictsF[iX2] | conflictsF[iM]); m.bits |= 1u << iX2 | 1u << iM; }
  else if (k == 7) { s.unset<A, S, VX>(); drop(m, 1u << iA | 1u << iS | 1u << iX1); }
  else { TF d; d.set<A>(); d.set<M>(); bcl::trait::update(d, s); unsigned w = 1u << iA | 1u << iM; drop(m, ~w & 63); m.bits = w; vf_reach("updated"); }
}
template <class T> static void queriesOf(const TS &s, const Model &m, unsigned group) {
  unsigned i = Ix<T>::v; Collect c; s.for_each_conflict<T>(c); vf_check(c.seen == (m.bits & conflictsF[i]) && !c.twice, "conflicting traits which are set are enumerated"); Collect g; s.for_each_in_group<T>(g); vf_check(g.seen == (m.bits & group) && !g.twice, "traits of a group which are set are enumerated"); vf_check((s.is<T>() == (bool)(m.bits >> i & 1)) & (s.is_any<T>() == (bool)(m.bits >> i & 1)), "a trait is set");
}
VF_ENTRY(traitset_queries) {
  Val::alive = 0; { TS s; Model m; anyOp(s, m); anyOp(s, m); unsigned g1 = 1u << iS | 1u << iM | 1u << iW, g2 = 1u << iX1 | 1u << iX2;
  queriesOf<A>(s, m, 1u << iA); queriesOf<S>(s, m, g1); queriesOf<M>(s, m, g1); queriesOf<W>(s, m, g1); queriesOf<VX>(s, m, g2); queriesOf<X2>(s, m, g2); Collect av; TS::for_each_available(av); vf_check(av.seen == (1u << iA | g1 | g2) && av.n == 6, "each available trait is enumerated once");
  unsigned k = 1u << iA | 1u << iM, l = 1u << iS | 1u << iW | 1u << iX2; vf_check((s.is<A, M>() == ((m.bits & k) == k)) & (s.is_any<A, M>() == ((m.bits & k) != 0)) & (s.is<S, W, X2>() == ((m.bits & l) == l)) & (s.is_any<S, W, X2>() == ((m.bits & l) != 0)), "several traits are set"); compare(s, m); vf_reach("queries"); }
  vf_check(Val::alive == 0, "remaining values are destroyed with the set");
}
VF_ENTRY(traitset_history) {
  unsigned ops = vf_param("ops", 3); Val::alive = 0; uint64_t live0 = vf_live_allocs();
  {
    TS s; Model m;
    for (unsigned i = 0; i < ops; ++i) { anyOp(s, m); int n = compare(s, m); vf_check(Val::alive == n, "a value is destroyed once, when its trait is unset or replaced"); vf_check(allowed(m.bits, conflictsF), "model"); }
    Collect c; s.for_each(c); vf_check(c.seen == m.bits && !c.twice, "set traits are enumerated");
  }
  vf_check(Val::alive == 0 && vf_live_allocs() == live0, "remaining values are destroyed with the set");
}
VF_ENTRY(traitset_move) {
  unsigned ops = vf_param("ops", 2); Val::alive = 0; uint64_t live0 = vf_live_allocs();
  {
    TS a, b; Model ma, mb; for (unsigned i = 0; i < ops; ++i) anyOp(a, ma); for (unsigned i = 0; i + 1 < ops; ++i) anyOp(b, mb);
    switch (vf_choose(3, "how")) {
    case 0: { TS c(std::move(a)); int n = compare(c, ma); vf_check(Val::alive == n + compare(b, mb), "moved values live on"); a.unset_all(); Model e; compare(a, e); vf_check(compare(c, ma) == n, "the source is detached"); vf_reach("moved"); break; }
    case 1: { b = std::move(a); int n = compare(b, ma); vf_check(Val::alive == n, "values of the target are destroyed, moved values live on"); a.unset_all(); vf_check(compare(b, ma) == n && Val::alive == n, "the source is detached"); anyOp(b, ma); compare(b, ma); vf_reach("assigned"); break; }
    case 2: { TS &r = a; a = std::move(r); int n = compare(a, ma); vf_check(Val::alive == n + compare(b, mb), "assignment to itself changes nothing"); break; }
    }
  }
  vf_check(Val::alive == 0 && vf_live_allocs() == live0, "remaining values are destroyed with the sets");
}
