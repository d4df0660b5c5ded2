#include "vf.h"
#include <cassert>
#include <array>
#include <cstdlib>
#include <string>
#include <bcl/Equation.h>
typedef int V; typedef unsigned Col;
typedef milp::AMonom<Col, V> M;
typedef milp::BinomialSystem<Col, V, 2, 2, 2> Sys;
enum { NV = 4, PARAM = 100, ATTACHED = 1000 };
struct Info {
  unsigned next = PARAM; bool guards[8] = {}; V vals[8] = {};
  template <class T> T get(Col c) const { return get_(c, (T *)nullptr); }
  bool get_(Col c, bool *) const { return guards[c & 7]; }
  V get_(Col c, V *) const { return vals[c & 7]; }
  Col parameterColumn() { return next++; }
  Col parameterColumn(Col c) { return c + ATTACHED; }
  bool isParameter(Col c) const { return c >= PARAM; }
  std::string name(Col c) const { return c >= PARAM ? "t" : "x"; }
};
struct Rec { unsigned n = 0; template <class T> Rec &operator<<(const T &) { ++n; return *this; } };
static V small(const char *n, long r) { return (V)vf_fix((uint64_t)vf_in<V>(-(V)r, (V)r, n)); }
// gcd
template <class T> static void gcd_case(T a, T b) {
  auto r = milp::euclidGCD(a, b);
  auto g = std::get<0>(r); auto x = std::get<1>(r); auto y = std::get<2>(r);
  vf_check(g >= 0 && (g == 0) == (a == 0 && b == 0), "the divisor is positive unless both numbers are zero");
  vf_check(a * x + b * y == g, "coefficients combine the numbers to the divisor");
  if (g) { vf_check(a % g == 0 && b % g == 0, "the divisor divides both numbers"); vf_reach(g > 1 ? "gcd" : "coprime"); }
}
VF_ENTRY(gcd_small) { long n = vf_param("n", 12); int a = vf_in<int>(-n, n, "a"), b = vf_in<int>(-n, n, "b"); b = (V)vf_fix((uint64_t)b); gcd_case<int>(a, b); }
VF_ENTRY(gcd_zero) { // one of the numbers is arbitrary, the other is zero, a unit or equal up to sign
  int a = vf_any<int>("a"); vf_assume(a != INT32_MIN); int k = vf_choose(5, "kind"); if (k > 2) vf_assume((a >= -1000) & (a <= 1000)); int b = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -1 : k == 3 ? a : -a;
  if (vf_bool("swap")) gcd_case<int>(b, a); else gcd_case<int>(a, b);
}
VF_ENTRY(gcd_wide) { long long n = vf_param("n", 3); int sh = vf_choose(40, "shift"); long long b = (long long)small("b", n) * (1LL << sh); long long a = (long long)small("a", n) * (1LL << vf_choose(40, "shift2")); gcd_case<long long>(a, b); }
// one number is wide and arbitrary near a power of two, the other one has few bits: quotients are wide and remainders are not zero
VF_ENTRY(gcd_near) {
  static const long long bs[] = {3, 7, 10, 64, 1000003, (1LL << 33) + 5}; long long b = bs[vf_choose(vf_param("bs", 3), "b")]; int n = vf_param("n", 8);
  long long a = (1LL << (vf_choose(vf_param("sh", 4), "shift") * 9 + 34)) + vf_in<int8_t>(-n, n, "a"); if (vf_bool("negative")) a = -a; if (vf_bool("swap")) gcd_case<long long>(b, a); else gcd_case<long long>(a, b);
}
// systems
struct Eq { V a, b, c; Col x, y; bool on; };
static Col colOf(const char *n) { return (Col)vf_choose(3, n); }
static void build(Sys &s, Eq *e, unsigned n, Info &inf, long r, bool guard) {
  for (unsigned i = 0; i < n; ++i) {
    if (vf_param("cols", 0) == 4) { // two independent equations which the third one links
      static const V pa[] = {1, 2, -1}; e[i].a = i < 2 ? 1 : pa[vf_choose(vf_param("pick", 2), "a")]; e[i].b = i == 1 ? vf_param("b1", 2) : pa[vf_choose(vf_param("pick", 2), "b")];
    } else { e[i].a = i || vf_param("a0", 99) == 99 ? small("a", r) : vf_param("a0", 0); e[i].b = small("b", r); }
     e[i].c = (V)vf_in<int8_t>(-(int8_t)vf_param("lim", 10), (int8_t)vf_param("lim", 10), "c");
    // without loss of generality: the first equation is over x0 and x1 (or x0 alone)
    long pat = vf_param("cols", 0); if (pat == 1) { e[i].x = 0; e[i].y = 1; } else if (pat == 2) { e[i].x = i % 3; e[i].y = (i + 1) % 3; } else if (pat == 3) { e[i].x = (i + 1) & 1; e[i].y = i & 1; } else if (pat == 4) { e[i].x = i == 2 ? (Col)vf_choose(2, "x") : 2 * i; e[i].y = i == 2 ? 2 + (Col)vf_choose(2, "y") : 2 * i + 1; } else if (i == 0) { e[i].x = 0; e[i].y = (Col)vf_choose(2, "y"); } else { e[i].x = colOf("x"); e[i].y = colOf("y"); }
    e[i].on = true;
    s.push_back(M(e[i].x, e[i].a), M(e[i].y, e[i].b), e[i].c);
    if (guard && i + 1 < n) { inf.guards[i] = vf_bool("guard"); s.back().addGuard(i); e[i].on = inf.guards[i]; }
  }
}
static bool holds(const Eq &e, const V *v) { return e.a * v[e.x] + e.b * v[e.y] == e.c; }
static void shape(const Sys &s, const Eq *e, unsigned n, const Info &inf) {
  unsigned cnt[NV] = {};
  for (auto &q : s.getSolution()) {
    vf_check(q.LHS.Value == 1 && q.LHS.Column < NV, "a solution row gives one of the variables");
    vf_check(q.RHS.Column >= PARAM && q.RHS.Column < inf.next, "a variable is given through a parameter");
    if (q.LHS.Column < NV) ++cnt[q.LHS.Column];
  }
  for (unsigned v = 0; v < NV; ++v) vf_check(cnt[v] <= 1, "no variable is given twice");
}
// x is a solution of the system => it is described by the computed solution
VF_ENTRY(eq_complete) {
  unsigned n = vf_param("rows", 2); Sys s; Eq e[4]; Info inf; build(s, e, n, inf, vf_param("r", 2), vf_param("guard", 0));
  V x[NV]; for (auto &v : x) v = (V)vf_in<int8_t>(-(int8_t)vf_param("lim", 10), (int8_t)vf_param("lim", 10), "x");
  for (unsigned i = 0; i < n; ++i) if (e[i].on) vf_assume(holds(e[i], x));
  s.instantiate(inf);
  std::size_t r;
  switch (vf_param("mode", 0)) { case 0: r = s.solve<Info, false>(inf); break; case 1: r = s.solve(inf); break; default: { Rec os; r = s.solve<Info, false, Rec>(inf, os); vf_check(os.n > 0, "logging"); } }
  vf_check(r == s.instantiated_size(), "a solvable system is solved");
  shape(s, e, n, inf);
  // the value of each parameter is determined by any row with a non-zero coefficient
  auto &sol = s.getSolution();
  for (unsigned i = 0; i < sol.size(); ++i) {
    V d = sol[i].Constant - x[sol[i].LHS.Column], p = sol[i].RHS.Value;
    if (p == 0) { vf_check(d == 0, "a variable which is constant in the computed solution has this value in every solution"); vf_reach("constant"); continue; }
    vf_check(d % p == 0, "every solution is described by an integer parameter");
    for (unsigned j = i + 1; j < sol.size(); ++j)
      if (sol[j].RHS.Column == sol[i].RHS.Column) { vf_check((sol[j].Constant - x[sol[j].LHS.Column]) * p == d * sol[j].RHS.Value, "one parameter value describes all variables"); vf_reach("two"); }
  }
}
// any parameter values => the original equations hold
VF_ENTRY(eq_sound) {
  unsigned n = vf_param("rows", 2); Sys s; Eq e[4]; Info inf; build(s, e, n, inf, vf_param("r", 2), vf_param("guard", 1));
  s.instantiate(inf); Sys u;
  for (auto I = s.instantiated_begin(); I != s.instantiated_end(); ++I) u.push_back(I->LHS, I->RHS, I->Constant);
  std::size_t r = s.solve<Info, false>(inf);
  if (r != s.instantiated_size()) { // the equations before the reported one have a solution, together with it they have none
    vf_check(r < s.instantiated_size(), "number of solved equations");
    for (unsigned k = 0; k < 2; ++k) { Sys p; Info j; auto I = u.begin(); for (unsigned i = 0; i < r + k; ++i, ++I) p.push_back(I->LHS, I->RHS, I->Constant); p.instantiate(j); vf_check((p.solve<Info, false>(j) == r), "the number of equations which have been solved"); }
    vf_reach("unsolvable"); return; }
  vf_reach("solved");
  shape(s, e, n, inf);
  V x[NV]; for (auto &v : x) v = (V)vf_in<int8_t>(-(int8_t)vf_param("lim", 10), (int8_t)vf_param("lim", 10), "x");
  V t[8]; for (auto &v : t) v = (V)vf_in<int8_t>(-(int8_t)vf_param("lim", 10), (int8_t)vf_param("lim", 10), "t");
  vf_check(inf.next - PARAM <= 8, "parameters");
  for (auto &q : s.getSolution()) x[q.LHS.Column] = q.Constant - q.RHS.Value * t[q.RHS.Column - PARAM];
  for (unsigned i = 0; i < n; ++i) if (e[i].on) vf_check(holds(e[i], x), "every described assignment satisfies the equations");
}
// instantiation keeps exactly the equations whose guards hold and adds the computed monomials
VF_ENTRY(eq_instantiate) {
  unsigned n = vf_param("rows", 3); Sys s; Info inf; bool keep[4]; V c[4];
  for (unsigned k = 0; k < 4; ++k) { inf.guards[k] = vf_any<uint8_t>("g") & 1; inf.vals[k] = (V)vf_in<int16_t>(-1000, 1000, "v"); }
  for (unsigned i = 0; i < n; ++i) {
    c[i] = (V)vf_in<int16_t>(-1000, 1000, "c"); keep[i] = true;
    s.push_back(M(2 * i, i + 1), M(2 * i + 1, i + 7), c[i]);
    vf_check(s.size() == i + 1, "number of equations");
    unsigned ng = vf_choose(3, "guards"), ni = vf_choose(i ? 2 : 3, "inverse"), nc = vf_choose(i ? 2 : 3, "monoms");
    for (unsigned k = 0; k < ng; ++k) { Col g = (i + k) % 3; s.back().addGuard(g); keep[i] &= inf.guards[g]; }
    for (unsigned k = 0; k < ni; ++k) { Col g = (i + k + 1) % 4; s.back().addInverseGuard(g); keep[i] &= !inf.guards[g]; }
    for (unsigned k = 0; k < nc; ++k) { V q = (V)(k + 2) * (k ? -1 : 1); s.back().addComputedMonom(M((i + k) % 4, q)); c[i] += q * inf.vals[(i + k) % 4]; }
    vf_check(s.back().guard_size() == ng && s.back().inverse_size() == ni && s.back().computed_size() == nc, "numbers of guards and monomials");
    unsigned k = 0; for (Col g : s.back().guards()) vf_check(g == (i + k++) % 3, "guards");
    vf_check(k == ng, "guards"); k = 0; for (Col g : s.back().inverse_guards()) vf_check(g == (i + k++ + 1) % 4, "inverse guards");
    vf_check(k == ni, "inverse guards"); k = 0; for (auto &m : s.back().computed_monoms()) { vf_check(m.Column == (i + k) % 4, "monomials"); ++k; } vf_check(k == nc, "monomials");
  }
  vf_check(!s.isInstantiated(), "not instantiated yet");
  s.instantiate(inf);
  vf_check(s.isInstantiated() && s.size() == n, "instantiated, no equation is lost");
  unsigned want = 0; for (unsigned i = 0; i < n; ++i) want += keep[i];
  vf_check(s.instantiated_size() == want, "number of equations whose guards hold");
  unsigned seen[4] = {}; const Sys &cs = s; unsigned num = 0;
  for (auto I = cs.instantiated_begin(); I != cs.instantiated_end(); ++I, ++num) {
    unsigned i = I->LHS.Column / 2; vf_check(i < n && I->LHS.Column == 2 * i && I->RHS.Column == 2 * i + 1 && I->LHS.Value == (V)i + 1 && I->RHS.Value == (V)i + 7, "coefficients are unchanged");
    vf_check(keep[i], "an equation with a failed guard is not instantiated"); vf_check(I->Constant == c[i], "monomials are added to the free term"); ++seen[i];
  }
  vf_check(num == want, "enumeration of instantiated equations");
  for (unsigned i = 0; i < n; ++i) vf_check(seen[i] == (keep[i] ? 1 : 0), "each equation once");
  unsigned all = 0; for (auto &r : s) { (void)r; ++all; } vf_check(all == n, "all equations are enumerated");
  if (want == 1) vf_reach("some"); if (want == n) vf_reach("all"); if (!want) vf_reach("none");
}
// printed rows: numbers and names in order; the type of columns differs from that of values
typedef milp::AMonom<uint16_t, V> PM; typedef milp::BinomialSystem<uint16_t, V, 2, 2, 2> PSys;
struct PInfo { bool guards[8] = {}; V vals[8] = {}; uint16_t next = PARAM; template <class T> T get(uint16_t c) const { return get_(c, (T *)nullptr); } bool get_(uint16_t c, bool *) const { return guards[c & 7]; } template <class T> T get_(uint16_t c, T *) const { return (T)vals[c & 7]; }
  uint16_t parameterColumn() { return next++; } uint16_t parameterColumn(uint16_t c) { return c + ATTACHED; } bool isParameter(uint16_t c) const { return c >= PARAM; } std::string name(uint16_t c) const { return std::string(1, (char)('A' + c % 26)); } };
struct Out { V v[200]; unsigned n = 0, lines = 0; void add(V x) { if (n < 200) v[n++] = x; } Out &operator<<(const char *t) { for (; *t; ++t) lines += *t == '\n'; return *this; } Out &operator<<(const std::string &t) { add(t[0]); return *this; } Out &operator<<(V x) { add(x); return *this; } Out &operator<<(bool x) { add(x); return *this; } };
VF_ENTRY(eq_print) {
  unsigned n = 2; PSys s; PInfo inf; bool keep[2]; V c[2], want[2][32]; unsigned len[2], ins = 0; for (unsigned k = 0; k < 4; ++k) { inf.guards[k] = vf_any<uint8_t>("g") & 1; inf.vals[k] = (V)vf_in<int16_t>(-1000, 1000, "v"); }
  for (unsigned i = 0; i < n; ++i) {
    c[i] = (V)vf_in<int16_t>(-1000, 1000, "c"); keep[i] = true; s.push_back(PM(2 * i, i + 1), PM(2 * i + 1, i + 7), c[i]); unsigned ng = vf_choose(3, "guards"), ni = vf_choose(i ? 2 : 3, "inverse"), nc = vf_choose(i ? 2 : 3, "monoms"); V *w = want[i]; unsigned k;
    *w++ = (V)i + 1; *w++ = 'A' + 2 * i; *w++ = (V)i + 7; *w++ = 'A' + 2 * i + 1; V *cst = w++;
    for (k = 0; k < ng; ++k) { uint16_t g = (i + k) % 3; s.back().addGuard(g); keep[i] &= inf.guards[g]; *w++ = 'A' + g; *w++ = inf.guards[g]; }
    for (k = 0; k < ni; ++k) { uint16_t g = (i + k + 1) % 4; s.back().addInverseGuard(g); keep[i] &= !inf.guards[g]; *w++ = 'A' + g; *w++ = inf.guards[g]; }
    V sum = 0; for (k = 0; k < nc; ++k) { V q = (V)(k + 2) * (k ? -1 : 1); uint16_t m = (i + k) % 4; s.back().addComputedMonom(PM(m, q)); sum += q * inf.vals[m]; *w++ = q; *w++ = 'A' + m; *w++ = q * inf.vals[m]; }
    *cst = keep[i] ? c[i] + sum : c[i]; ins += keep[i]; len[i] = w - want[i];
    const auto &row = s.back(); k = 0; for (auto g : row.guards()) vf_check(g == (i + k++) % 3, "guards"); vf_check(k == ng && row.guard_end() - row.guard_begin() == (long)ng, "guards"); k = 0; for (auto g : row.inverse_guards()) vf_check(g == (i + k++ + 1) % 4, "inverse guards"); vf_check(k == ni && row.inverse_end() - row.inverse_begin() == (long)ni, "inverse guards");
    k = 0; for (auto &m : row.computed_monoms()) { vf_check(m.Column == (i + k) % 4, "monomials"); ++k; } vf_check(k == nc && row.computed_end() - row.computed_begin() == (long)nc, "monomials");
  }
  s.instantiate(inf); unsigned got = 0; for (auto I = s.instantiated_begin(); I != s.instantiated_end(); ++I) { vf_check(keep[I->LHS.Column / 2], "an equation with a failed guard is not instantiated"); ++got; } vf_check(got == ins, "enumeration of instantiated equations"); const PSys &cs = s; unsigned all = 0; for (auto &r : cs) { (void)r; ++all; } vf_check(all == n, "all equations are enumerated");
  Out o; cs.printInstantiated(inf, o); unsigned at = 0, seen = 0;
  for (unsigned r = 0; r < n; ++r) { vf_check(at + 1 < o.n, "rows are printed"); if (at + 1 >= o.n) return; unsigned i = o.v[at + 1] == 'A' ? 0 : 1; vf_check(keep[i] == (r < ins), "instantiated equations are printed first"); seen |= 1u << i; for (unsigned k = 0; k < len[i]; ++k) vf_check((at + k < o.n) && o.v[at + k] == want[i][k], "a row is printed as it is"); at += len[i]; }
  vf_check(seen == 3 && at == o.n && o.lines == n + 2, "each row is printed once"); vf_reach(ins ? "printed" : "discarded");
}
VF_ENTRY(eq_log) { // a solution with and without a log is the same and is printed as it is
  V a = small("a", 3), b = small("b", 3), d = small("d", 2), c0 = (V)vf_in<int8_t>(-20, 20, "c"), c1 = (V)vf_in<int8_t>(-20, 20, "c"); PInfo i1, i2; PSys s, t; for (PSys *x : {&s, &t}) { x->push_back(PM(0, a), PM(1, b), c0); x->push_back(PM(2, 1), PM(3, d), c1); x->instantiate(x == &s ? i1 : i2); }
  Out o; std::size_t p = s.solve<PInfo, false>(i1), q = t.solve<PInfo, false, Out>(i2, o); vf_check(p == q && s.getSolution().size() == t.getSolution().size() && o.n > 0, "a log changes nothing"); Out z; t.printSolution(i2, z); auto &u = s.getSolution(), &w = t.getSolution(); vf_check(z.n == 5 * w.size() && z.lines == 1 + w.size(), "a solution is printed"); if (z.n != 5 * w.size()) return;
  for (unsigned k = 0; k < u.size(); ++k) { vf_check(u[k].LHS.Column == w[k].LHS.Column && u[k].RHS.Column == w[k].RHS.Column && u[k].LHS.Value == w[k].LHS.Value && u[k].RHS.Value == w[k].RHS.Value && u[k].Constant == w[k].Constant, "a log changes nothing"); vf_check(z.v[5 * k] == w[k].LHS.Value && z.v[5 * k + 1] == i2.name(w[k].LHS.Column)[0] && z.v[5 * k + 2] == w[k].RHS.Value && z.v[5 * k + 3] == i2.name(w[k].RHS.Column)[0] && z.v[5 * k + 4] == w[k].Constant, "a solution is printed as it is"); Out e; PSys::printEquation(w[k], i2, e); vf_check(e.n == 5 && e.v[0] == z.v[5 * k] && e.v[2] == z.v[5 * k + 2] && e.v[4] == z.v[5 * k + 4], "an equation is printed as it is"); }
  if (p == 2) vf_reach("solved");
}
// reversal: every old assignment satisfies the new rows, which have one common positive multiple of the parameter
static unsigned path(Sys &s, Info &inf, V *cst, V *coef, unsigned rows, long r) {
  // x0 in terms of each next variable through one parameter: a chain of equations x0 + b*xi = c
  for (unsigned i = 0; i < rows; ++i) { V a = small("a", r), b = small("b", r), c = (V)vf_in<int8_t>(-(int8_t)vf_param("lim", 10), (int8_t)vf_param("lim", 10), "c"); vf_assume(a != 0 && b != 0); s.push_back(M(i, a), M(i + 1, b), c); }
  s.instantiate(inf); if (s.solve<Info, false>(inf) != rows) vf_end_path();
  unsigned n = 0; for (auto &q : s.getSolution()) { vf_assume(q.RHS.Value != 0); coef[n] = q.RHS.Value; cst[n] = q.Constant; ++n; }
  return n;
}
VF_ENTRY(eq_reverse) {
  { Sys z; Info j; z.instantiate(j); vf_check((z.solve<Info, false>(j) == 0), "no equations"); z.reverseSolution(j); vf_check(z.getSolution().empty(), "a system without equations has no rows of a solution"); }
  Sys s; Info inf; V cst[4], coef[4]; unsigned rows = vf_param("rows", 2); unsigned n = path(s, inf, cst, coef, rows, vf_param("r", 3));
  std::vector<milp::BAEquation<Col, V>> old(s.getSolution());
  s.reverseSolution(inf);
  auto &q = s.getSolution(); vf_check(q.size() == n, "no row is lost");
  V L = 0;
  for (unsigned i = 0; i < n; ++i) {
    vf_check(q[i].LHS.Column == old[i].RHS.Column + ATTACHED && q[i].LHS.Value == 1, "the new unknown is attached to the old parameter");
    vf_check(q[i].RHS.Column == old[i].LHS.Column, "the variable becomes the parameter");
    V m = q[i].RHS.Value; vf_check(m != 0, "the variable is still present");
    // old row times m:  m*x + (m*a)*t = m*b  must be  y + m*x = d  with y = (m*a)*t
    vf_check(q[i].Constant == m * old[i].Constant, "the free term is scaled as the row");
    V l = m * old[i].RHS.Value; vf_check(l > 0, "the multiple of the parameter is positive");
    if (i == 0) L = l; else vf_check(l == L, "all rows share one multiple of the parameter");
  }
  vf_reach("reversed");
}
VF_ENTRY(eq_positive) {
  Sys s; Info inf; V cst[4], coef[4]; unsigned n = path(s, inf, cst, coef, vf_param("rows", 2), vf_param("r", 2));
  std::vector<milp::BAEquation<Col, V>> old(s.getSolution());
  s.solutioWithPositiveConstant(inf);
  auto &q = s.getSolution(); vf_check(q.size() == n, "no row is lost");
  V sh = q[0].Constant - old[0].Constant; V mn = old[0].Constant;
  for (unsigned i = 0; i < n; ++i) {
    vf_check(q[i].Constant >= 0, "free terms are not negative");
    vf_check(q[i].Constant - old[i].Constant == sh, "all unknowns are shifted by one value");
    vf_check(q[i].RHS.Column == old[i].RHS.Column && q[i].RHS.Value == old[i].RHS.Value && q[i].LHS.Value == 1, "nothing else is changed");
    vf_check(q[i].LHS.Column == old[i].LHS.Column + (sh != 0 ? ATTACHED : 0), "a shifted unknown is a new variable");
    mn = old[i].Constant < mn ? old[i].Constant : mn;
  }
  vf_check(sh == (mn < 0 ? -mn : 0), "the shift is the least one"); vf_reach(mn < 0 ? "shifted" : "same");
}
struct NI { unsigned char next = 100; unsigned char parameterColumn() { return next++; } unsigned char parameterColumn(unsigned char c) { return c + 50; } bool isParameter(unsigned char c) const { return c >= 100; } template <class T> T get(unsigned char) const { return T(); } std::string name(unsigned char) const { return ""; } };
// wide coefficients in a narrow column type
VF_ENTRY(eq_narrow) {
  typedef milp::BinomialSystem<unsigned char, int, 1, 1, 1> N;
  NI inf;
  static const int pick[] = {1, 7, 40, 300}; int a = pick[vf_choose(4, "a")], b = pick[vf_choose(4, "b")], c = (int)vf_in<int16_t>(-1000, 1000, "c");
  N s; s.push_back({0, a}, {1, b}, c * a); s.instantiate(inf); if (s.solve<NI, false>(inf) != 1) vf_end_path();
  std::vector<milp::BAEquation<unsigned char, int>> old(s.getSolution());
  if (vf_bool("reverse")) { s.reverseSolution(inf); auto &q = s.getSolution(); vf_check(q.size() == 2 && q[0].RHS.Value * old[0].RHS.Value == q[1].RHS.Value * old[1].RHS.Value && q[0].RHS.Value != 0, "all rows share one multiple of the parameter"); vf_reach("r"); }
  else { s.solutioWithPositiveConstant(inf); auto &q = s.getSolution(); vf_check(q[0].Constant >= 0 && q[1].Constant >= 0, "free terms are not negative"); vf_reach("p"); }
}
