// exhaustion of memory: one or two failing allocations at any place of an operation
#include "oom.h"
#include <bcl/transparent_queue.h>
#include <bcl/Diagnostic.h>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <bcl/utility.h>
#include <bcl/trait.h>
#include <cassert>
#include <cstdlib>
#include <bcl/Equation.h>
#include <map>
#include <set>
#include <string>
#include <memory>
#include <tuple>
struct Leak { uint64_t live = vf_live_allocs(); ~Leak() { vf_check(vf_live_allocs() == live, "nothing leaks"); } };
typedef bcl::TransparentQueue<int> TQ; typedef int *P;
struct Model { P v[12]; unsigned b = 0, e = 0; unsigned size() const { return e - b; } };
static void same(TQ &q, const Model &m) {
  const TQ &c = q; vf_check(c.size() == m.size() && c.empty() == !m.size(), "number of elements"); if (m.size()) vf_check(c.front() == m.v[m.b] && c.back() == m.v[m.e - 1], "first and last element");
}
static P anyPtr() { return (P)(uintptr_t)vf_any<uint64_t>("p"); }
VF_ENTRY(oom_queue) { Leak lk; {
  TQ q[2]; Model m[2]; unsigned pre = vf_choose(4, "size"); for (unsigned i = 0; i < pre; ++i) { P p = anyPtr(); q[0].push(p); m[0].v[m[0].e++] = p; }
  long ops = vf_param("ops", 3); for (long i = 0; i < ops; ++i) { unsigned k = vf_choose(2, "queue"); TQ &x = q[k], &y = q[1 - k]; Model &a = m[k], &b = m[1 - k];
    switch (vf_choose(6, "op")) {
    case 0: { P p = anyPtr(); if (tight([&] { x.push(p); })) a.v[a.e++] = p; else vf_reach("push"); break; }
    case 1: { P p = anyPtr(); if (tight([&] { x.emplace(p); })) a.v[a.e++] = p; else vf_reach("emplace"); break; }
    case 2: if (a.size()) { P p = nullptr; vf_check(tight([&] { p = x.pop(); }) && p == a.v[a.b++], "elements are taken without new memory"); } break;
    case 3: if (tight([&] { x = y; })) a = b; else vf_reach("assign"); break;
    case 4: if (tight([&] { TQ t(y); same(t, b); x = std::move(t); })) a = b; else vf_reach("copy"); break;
    case 5: { bool l = false, l1 = false, d = tight([&] { l = x < y; }); l1 = x < y; if (d) vf_check(l == l1, "comparison"); else vf_reach("compare"); break; }
    }
    same(q[0], m[0]); same(q[1], m[1]);
  }
  for (unsigned k = 0; k < 2; ++k) while (m[k].size()) { same(q[k], m[k]); vf_check(q[k].pop() == m[k].v[m[k].b++], "elements are kept in order"); } }
}
// a list of messages: nothing but the new message may be lost
VF_ENTRY(oom_diag) { Leak lk; {
  unsigned n = 0, intern = 0; bcl::Diagnostic *d = nullptr; if (!tight([&] { d = new bcl::Diagnostic("kind"); })) { d = new bcl::Diagnostic("kind"); vf_reach("create"); }
  long ops = vf_param("ops", 4); char m[8][3]; char x = vf_any<char>("c"); vf_assume(x != 0);
  for (long i = 0; i < ops; ++i) { char c[3] = {(char)('a' + i), i == 1 ? x : 'b', 0}; bool r = false;
    vf_check(tight([&] { r = d->insert(3, "%s", 7, (const char *)c); }), "lack of memory is an internal error"); if (r) { __builtin_memcpy(m[n++], c, 3); } else { ++intern; vf_check(oomFailed, "a message is refused only if there is no memory"); vf_reach("insert"); }
    vf_check(d->size() == n && d->internal_size() == intern, "number of messages"); unsigned k = 0; for (const char *s : *d) { vf_check(k < n && !__builtin_memcmp(s, "kind C3(7): ", 12) && s[12] == m[k][0] && s[13] == m[k][1] && !s[14], "messages are kept in order"); ++k; } vf_check(k == n, "every message is kept"); }
  delete d; }
}
// arrays: a failed construction releases everything and leaves other arrays alone
VF_ENTRY(oom_marray) { Leak lk; {
  bcl::marray<int, 2> a(std::array<size_t, 2>{{2, 2}}); int x = vf_any<int>("x"); a[1][1] = x; bcl::marray_f<std::string, 2> f(std::array<size_t, 2>{{1, 2}}); f(0, 1) = "text";
  bool done = tight([&] { bcl::marray<std::string, 3> b(std::array<size_t, 3>{{1, 2, 2}}); b[0][1][1] = "a text which is too long to be stored in place"; bcl::marray_f<int, 2> c(std::array<size_t, 2>{{2, 1}}); a = bcl::marray<int, 2>(std::array<size_t, 2>{{1, 1}}); a[0][0] = x; });
  if (!done) { vf_check(a[1][1] == x, "an array keeps its elements"); vf_reach("failed"); } else { vf_check(a[0][0] == x, "element of the new array"); vf_reach("done"); } vf_check(f(0, 1) == "text", "an element of another array"); }
}
// values attached to traits
struct TA { int v; }; struct TB { int v; }; struct TC { int v; };
typedef bcl::TraitSet<bcl::TraitDescriptor<bcl::TraitAlternative<TA, TB>, TC>, std::map<unsigned long long, void *>> TS;
template <class T> static void put(TS &s, bool *has, int *val, unsigned i, int other) {
  int v = vf_any<int>("v"); T *t = new T{v}; if (tight([&] { s.set<T>(t); })) { has[i] = true; val[i] = v; } else { delete t; vf_check(has[i] ? s.get<T>() && s.get<T>()->v == val[i] : !s.get<T>(), "a value which has not been attached is not kept and does not replace another one"); vf_reach("set"); }
  if (other >= 0) { if (s.is<T>()) has[other] = false; }
}
template <class T> static void see(TS &s, bool has, int v) { vf_check((s.get<T>() != nullptr) == has, "attached values only"); if (has) vf_check(s.is<T>() && s.get<T>()->v == v, "value of a trait"); }
VF_ENTRY(oom_traits) { Leak lk; {
  TS s; bool has[3] = {}; int val[3]; long ops = vf_param("ops", 4);
  for (long i = 0; i < ops; ++i) {
    switch (vf_choose(5, "op")) { case 0: put<TA>(s, has, val, 0, 1); break; case 1: put<TB>(s, has, val, 1, 0); break; case 2: put<TC>(s, has, val, 2, -1); break; case 3: tight([&] { TS t(std::move(s)); s = std::move(t); }); break; case 4: vf_check(tight([&] { s.unset<TA>(); }), "traits are unset without memory"); has[0] = false; break; }
    vf_check(!(s.is<TA>() && s.is<TB>()), "conflicting traits are never set together"); see<TA>(s, has[0], val[0]); see<TB>(s, has[1], val[1]); see<TC>(s, has[2], val[2]);
  } }
}
// systems of equations: an equation which could not be added is not there, other ones are kept and solved
typedef milp::BinomialSystem<unsigned, int, 1, 1, 1> Sys; typedef milp::AMonom<unsigned, int> Mon;
struct Inf { unsigned next = 100; template <class T> T get(unsigned) const { return T(1); } unsigned parameterColumn() { return next++; } unsigned parameterColumn(unsigned c) { return c + 1000; } bool isParameter(unsigned c) const { return c >= 100; } const char *name(unsigned) const { return "x"; } };
VF_ENTRY(oom_system) { Leak lk; {
  Sys s; Inf inf; unsigned n = 0, ops = (unsigned)vf_param("ops", 4); int c[8]; unsigned at[8];
  for (unsigned i = 0; i < ops; ++i) {
    int x = vf_any<int16_t>("c"); if (tight([&] { s.push_back(Mon(2 * i, 1), Mon(2 * i + 1, 1), x); })) { at[n] = i; c[n++] = x; } else vf_reach("push");
    vf_check(s.size() == n, "number of equations"); unsigned k = 0; for (auto &r : s) { vf_check(k < n && r.Constant == c[k] && r.LHS.Column == 2 * at[k] && r.RHS.Column == 2 * at[k] + 1, "equations which have been added, in order"); ++k; } vf_check(k == n, "every equation is kept");
    if (n) vf_check(s.back().Constant == c[n - 1] && s.back().LHS.Column == 2 * at[n - 1], "the last equation which has been added");
  }
  s.instantiate(inf); vf_check(s.instantiated_size() == n, "every equation is instantiated"); s.template solve<Inf>(inf); vf_check(s.getSolution().size() == 2 * n, "every equation is solved"); std::vector<milp::BAEquation<unsigned, int>> old(s.getSolution());
  for (unsigned k = 0; k < n; ++k) { long sum = 0; for (auto &q : old) if (q.LHS.Column / 2 == at[k]) sum += q.Constant; vf_check(sum == c[k], "the solution satisfies the equation"); }
  if (!tight([&] { s.reverseSolution(inf); })) { auto &q = s.getSolution(); vf_check(q.size() == old.size(), "no row is lost"); for (unsigned k = 0; k < q.size(); ++k) vf_check(q[k].LHS.Column == old[k].LHS.Column && q[k].RHS.Column == old[k].RHS.Column && q[k].LHS.Value == old[k].LHS.Value && q[k].RHS.Value == old[k].RHS.Value && q[k].Constant == old[k].Constant, "a solution which could not be reversed is as it was"); vf_reach("reverse"); }
  } }
// small helpers: what could not be done has not been begun
struct Hard { int v; std::string t; Hard(const Hard &) = delete; Hard &operator=(const Hard &) = delete; Hard(int x, const char *s) : v(x), t(s) {} };
VF_ENTRY(oom_helpers) { Leak lk; {
  int x = vf_any<int>("x"), y = vf_any<int>("y"); uint8_t c = vf_any<uint8_t>("c");
  struct Raw { int v; char t[20]; } a{x, "abc"}, b{y, "de"}; if (tight([&] { bcl::swapMemory(a, b); })) vf_check(a.v == y && b.v == x && a.t[0] == 'd' && b.t[2] == 'c', "exchange"); else { vf_check(a.v == x && b.v == y && a.t[0] == 'a' && b.t[0] == 'd', "objects which could not be exchanged are as they were"); vf_reach("exchange"); }
  std::string s(20, 'a'); s[3] = (char)c; const std::string before(s); std::string q; if (!tight([&] { q = bcl::quote(s); })) vf_reach("quote"); else vf_check(q.size() == 22 && q[4] == (char)c, "a text in quotes"); vf_check(s == before, "the text is as it was");
  std::unique_ptr<Hard> h; if (tight([&] { h = bcl::make_unique<Hard>(x, "a text which is too long to be stored in place"); })) vf_check(h->v == x, "an object"); else { vf_check(!h, "there is no object"); vf_reach("object"); }
  std::unique_ptr<int[]> n; if (!tight([&] { n = bcl::make_unique<int[]>(3); })) vf_check(!n, "there is no array"); std::unique_ptr<Hard> p; if (!tight([&] { p = bcl::make_unique_piecewise<Hard>(std::tuple<int, const char *>(y, "another text which is too long to be stored in place")); })) vf_check(!p, "there is no object"); else vf_check(p->v == y, "an object"); } }
