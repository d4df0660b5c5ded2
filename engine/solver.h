#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
namespace vs {
typedef std::vector<E> Cons;
enum class R { Sat, Unsat, Unknown };
struct SolverStats { uint64_t z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, cacheHits = 0, ttDecided = 0, modelDecided = 0; double z3Time = 0; double maxQuery = 0; };

class Solver {
  Z3_context ctx;
  Z3_solver sol;
  struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
  struct Ent { R r; std::vector<std::pair<uint32_t, uint64_t>> model; };
  std::unordered_map<std::vector<uint32_t>, Ent, VH> cache;
  Z3_ast ref(Z3_ast a) { return a; }
public:
  SolverStats st;
  unsigned timeoutMs = 60000;
  Solver() {
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c);
    Z3_del_config(c);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    sol = nullptr;
  }
  Z3_ast B2BV(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
  // 1-bit terms are translated to Bool; everything else to bit-vectors.
  Z3_ast tr(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    if (e->w == 1) { r = trRanges(e); if (!r) r = trBool(e); } else r = trBV(e);
    e->z3 = ref(r);
    return r;
  }
  // A condition on one byte is handed over as the set of bytes that satisfy it.
  Z3_ast trRanges(E e) {
    if (e->isConst() || e->k == K::And || e->k == K::Or || e->k == K::Sym) return nullptr;
    const auto &sy = X.syms(e)->v; if (sy.size() != 1) return nullptr;
    E in = e; while (in->k != K::Sym) { if (in->a && !in->a->isConst()) in = in->a; else if (in->b && !in->b->isConst()) in = in->b; else in = in->c; }
    if (in->w != 8) return nullptr;
    const auto &t = X.truth(e, sy[0]); std::vector<std::pair<unsigned, unsigned>> rg;
    for (unsigned i = 0; i < 256; ++i) if (t[i]) { unsigned j = i; while (j < 255 && t[j + 1]) ++j; rg.push_back({i, j}); i = j; }
    if (rg.size() > 12) return nullptr;
    Z3_ast s = trBV(in); std::vector<Z3_ast> d; auto c = [&](unsigned v) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, 8)); };
    for (auto &p : rg) {
      if (p.first == 0 && p.second == 255) return Z3_mk_true(ctx);
      if (p.first == p.second) d.push_back(Z3_mk_eq(ctx, s, c(p.first)));
      else if (p.first == 0) d.push_back(Z3_mk_bvule(ctx, s, c(p.second)));
      else if (p.second == 255) d.push_back(Z3_mk_bvuge(ctx, s, c(p.first)));
      else { Z3_ast x[2] = {Z3_mk_bvuge(ctx, s, c(p.first)), Z3_mk_bvule(ctx, s, c(p.second))}; d.push_back(Z3_mk_and(ctx, 2, x)); }
    }
    return d.empty() ? Z3_mk_false(ctx) : d.size() == 1 ? d[0] : Z3_mk_or(ctx, d.size(), d.data());
  }
  Z3_ast bv(E e) { return e->w == 1 ? B2BV(tr(e)) : tr(e); }
  Z3_ast trBool(E e) {
    switch (e->k) {
    case K::Const: return e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case K::Sym: case K::Extract: case K::ZExt: case K::SExt: case K::Concat:
      return Z3_mk_eq(ctx, trBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    case K::And: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case K::Or: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; return Z3_mk_or(ctx, 2, x); }
    case K::Xor: return e->b->isTrue() ? Z3_mk_not(ctx, tr(e->a)) : Z3_mk_xor(ctx, tr(e->a), tr(e->b));
    case K::Eq: return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case K::Ult: return Z3_mk_bvult(ctx, bv(e->a), bv(e->b));
    case K::Ule: return Z3_mk_bvule(ctx, bv(e->a), bv(e->b));
    case K::Slt: return Z3_mk_bvslt(ctx, bv(e->a), bv(e->b));
    case K::Sle: return Z3_mk_bvsle(ctx, bv(e->a), bv(e->b));
    case K::Ite: return Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c));
    default: return Z3_mk_eq(ctx, trBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
  }
  Z3_ast trBV(E e) {
    Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
    switch (e->k) {
    case K::Const: return Z3_mk_unsigned_int64(ctx, e->v, s);
    case K::Sym: { char n[40]; snprintf(n, 40, "%c%u_%u", e->uninit ? 'u' : 's', (unsigned)e->v, e->w); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), s); }
    case K::Add: return Z3_mk_bvadd(ctx, bv(e->a), bv(e->b));
    case K::Sub: return Z3_mk_bvsub(ctx, bv(e->a), bv(e->b));
    case K::Mul: return Z3_mk_bvmul(ctx, bv(e->a), bv(e->b));
    case K::UDiv: return Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b));
    case K::SDiv: return Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b));
    case K::URem: return Z3_mk_bvurem(ctx, bv(e->a), bv(e->b));
    case K::SRem: return Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b));
    case K::And: return Z3_mk_bvand(ctx, bv(e->a), bv(e->b));
    case K::Or: return Z3_mk_bvor(ctx, bv(e->a), bv(e->b));
    case K::Xor: return Z3_mk_bvxor(ctx, bv(e->a), bv(e->b));
    case K::Shl: return Z3_mk_bvshl(ctx, bv(e->a), bv(e->b));
    case K::LShr: return Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b));
    case K::AShr: return Z3_mk_bvashr(ctx, bv(e->a), bv(e->b));
    case K::Concat: return Z3_mk_concat(ctx, bv(e->a), bv(e->b));
    case K::Extract: return Z3_mk_extract(ctx, e->v + e->w - 1, e->v, bv(e->a));
    case K::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a));
    case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a));
    case K::Ite: return Z3_mk_ite(ctx, tr(e->a), bv(e->b), bv(e->c));
    default: fprintf(stderr, "trBV?\n"); abort();
    }
  }
  // constraints that (transitively) share symbols with cond
  void slice(const Cons &cs, E cond, Cons &out) {
    std::vector<uint32_t> S = X.syms(cond)->v;
    std::vector<char> used(cs.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); ++i) if (!used[i]) {
        const auto &v = X.syms(cs[i])->v;
        bool inter = false;
        if (v.size() == 1) inter = std::binary_search(S.begin(), S.end(), v[0]);
        else for (auto x : v) if (std::binary_search(S.begin(), S.end(), x)) { inter = true; break; }
        if (inter) {
          used[i] = 1; ch = true;
          if (v.size() > 1 || true) {
            std::vector<uint32_t> t; t.reserve(S.size() + v.size());
            std::set_union(S.begin(), S.end(), v.begin(), v.end(), std::back_inserter(t));
            if (t.size() != S.size()) S.swap(t);
          }
        }
      }
    }
    for (size_t i = 0; i < cs.size(); ++i) if (used[i]) out.push_back(cs[i]);
  }
  // Is (cs && cond) satisfiable?  On Sat, writes the symbols involved into model.
  R check(const Cons &cs, E cond, std::vector<uint64_t> *model, bool isAssert = false) {
    if (cond->isConst()) return cond->v ? R::Sat : R::Unsat;
    Cons sl; slice(cs, cond, sl);
    std::vector<uint32_t> key; key.reserve(sl.size() + 1);
    for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cacheHits++;
      if (it->second.r == R::Sat && model) put(*model, it->second.model);
      return it->second.r;
    }
    auto t0 = std::chrono::steady_clock::now();
    if (!sol) { // recreated now and then to bound memory
      sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
      Z3_solver_inc_ref(ctx, sol);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
      Z3_solver_set_params(ctx, sol, p); Z3_params_dec_ref(ctx, p);
    }
    for (E e : sl) Z3_solver_assert(ctx, sol, tr(e));
    Z3_solver_assert(ctx, sol, tr(cond));
    Z3_lbool r = Z3_solver_check(ctx, sol);
    Ent ent;
    ent.r = r == Z3_L_TRUE ? R::Sat : r == Z3_L_FALSE ? R::Unsat : R::Unknown;
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
      std::unordered_map<uint32_t, E> all;
      for (E e : sl) leaves(e, all);
      leaves(cond, all);
      visited.clear();
      for (auto &kv : all) {
        Z3_ast val; uint64_t u = 0;
        if (Z3_model_eval(ctx, m, trBV(kv.second), true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
        ent.model.push_back({kv.first, u});
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, sol); sol = nullptr;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (getenv("VF_SLOW") && dt > 0.2) { fprintf(stderr, "slow query %.2f syms %zu: %s\n", dt, X.syms(cond)->v.size(), X.str(cond, 7).c_str()); for (E e : sl) fprintf(stderr, "   cons %s\n", X.str(e, 5).c_str()); }
    st.z3Queries++; st.z3Time += dt; if (dt > st.maxQuery) st.maxQuery = dt;
    (ent.r == R::Sat ? st.z3Sat : ent.r == R::Unsat ? st.z3Unsat : st.z3Unknown)++;
    if (ent.r == R::Sat && model) put(*model, ent.model);
    R rr = ent.r;
    if (cache.size() > 400000) cache.clear();
    cache.emplace(std::move(key), std::move(ent));
    return rr;
  }
private:
  std::unordered_set<uint32_t> visited;
  void leaves(E e, std::unordered_map<uint32_t, E> &m) {
    if (e->k == K::Const) return;
    if (e->k == K::Sym) { m[(uint32_t)e->v] = e; return; }
    if (!visited.insert(e->id).second) return;
    if (e->a) leaves(e->a, m); if (e->b) leaves(e->b, m); if (e->c) leaves(e->c, m);
  }
  static void put(std::vector<uint64_t> &model, const std::vector<std::pair<uint32_t, uint64_t>> &m) {
    for (auto &p : m) { if (p.first >= model.size()) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  }
};
} // namespace vs
