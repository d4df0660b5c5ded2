// Hash-consed bit-vector terms (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <bitset>

namespace vs {

enum class K : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
  Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite
};

struct SymSet { std::vector<uint32_t> v; };

struct Expr {
  K k;
  uint8_t w;
  bool uninit;          // depends on an uninitialised byte
  uint32_t id;
  uint64_t v;           // constant value | symbol index | extract low bit
  const Expr *a, *b, *c;
  mutable const SymSet *syms = nullptr;
  mutable uint64_t evEpoch = 0, evVal = 0;
  mutable void *z3 = nullptr;
  mutable std::bitset<256> *tt = nullptr;
  bool isConst() const { return k == K::Const; }
  bool isTrue() const { return k == K::Const && w == 1 && v == 1; }
  bool isFalse() const { return k == K::Const && w == 1 && v == 0; }
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

class ExprMgr {
  struct Hash { size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->k * 1315423911u ^ e->w ^ (e->v * 0x9E3779B97F4A7C15ull);
    h ^= (e->a ? e->a->id : 0) * 0x85ebca6bull; h = (h << 13) | (h >> 51);
    h ^= (e->b ? e->b->id : 0) * 0xc2b2ae35ull; h = (h << 13) | (h >> 51);
    h ^= (e->c ? e->c->id : 0) * 0x27d4eb2full; h ^= h >> 29; h ^= e->uninit;
    return h * 0x9E3779B97F4A7C15ull >> 3; } };
  struct Eq_ { bool operator()(const Expr *x, const Expr *y) const {
    return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a &&
           x->b == y->b && x->c == y->c && x->uninit == y->uninit; } };
  std::unordered_set<const Expr *, Hash, Eq_> table;
  std::vector<Expr *> chunks; size_t used = 0; static constexpr size_t CH = 4096;
  uint32_t nextId = 1;
  E byteC[256]; E t1, f1;
  struct VH { size_t operator()(const std::vector<uint32_t> &v) const {
    size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
  std::unordered_map<std::vector<uint32_t>, SymSet *, VH> symsets;

  Expr *alloc() {
    if (chunks.empty() || used == CH) { chunks.push_back((Expr *)calloc(CH, sizeof(Expr))); used = 0; }
    return &chunks.back()[used++];
  }
  E mk(K k, unsigned w, uint64_t v, E a = nullptr, E b = nullptr, E c = nullptr, bool un = false) {
    Expr t; t.k = k; t.w = w; t.v = v; t.a = a; t.b = b; t.c = c; t.id = 0;
    t.uninit = un || (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    Expr *n = alloc();
    *n = t; n->id = nextId++;
    table.insert(n);
    return n;
  }
public:
  ExprMgr() {
    table.reserve(1 << 16);
    for (int i = 0; i < 256; ++i) byteC[i] = mk(K::Const, 8, i);
    t1 = mk(K::Const, 1, 1); f1 = mk(K::Const, 1, 0);
  }
  size_t size() const { return table.size(); }
  E C(uint64_t v, unsigned w) {
    v &= maskw(w);
    if (w == 8) return byteC[v];
    if (w == 1) return v ? t1 : f1;
    return mk(K::Const, w, v);
  }
  E T() { return t1; }
  E F() { return f1; }
  E sym(uint32_t idx, unsigned w, bool un) { return mk(K::Sym, w, idx, nullptr, nullptr, nullptr, un); }

  static uint64_t fold(K k, uint64_t x, uint64_t y, unsigned w) {
    uint64_t m = maskw(w);
    switch (k) {
    case K::Add: return (x + y) & m;
    case K::Sub: return (x - y) & m;
    case K::Mul: return (x * y) & m;
    case K::UDiv: return y ? x / y : m;
    case K::URem: return y ? x % y : x;
    case K::SDiv: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
    case K::SRem: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case K::And: return x & y;
    case K::Or: return x | y;
    case K::Xor: return x ^ y;
    case K::Shl: return y >= w ? 0 : (x << y) & m;
    case K::LShr: return y >= w ? 0 : x >> y;
    case K::AShr: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
    case K::Eq: return x == y;
    case K::Ult: return x < y;
    case K::Ule: return x <= y;
    case K::Slt: return sx(x, w) < sx(y, w);
    case K::Sle: return sx(x, w) <= sx(y, w);
    default: abort();
    }
  }
  E Not(E a) { return bin(K::Xor, a, C(maskw(a->w), a->w)); }
  E notb(E a) {
    return Not(a);
  }
  E andb(E a, E b) { return bin(K::And, a, b); }
  E orb(E a, E b) { return bin(K::Or, a, b); }

  E bin(K k, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch k=%d %d %d\n", (int)k, a->w, b->w); abort(); }
    unsigned w = a->w;
    bool cmp = k >= K::Eq && k <= K::Sle;
    if (a->isConst() && b->isConst()) return C(fold(k, a->v, b->v, w), cmp ? 1 : w);
    // commutative: constant on the right
    switch (k) {
    case K::Add: case K::Mul: case K::And: case K::Or: case K::Xor: case K::Eq:
      if (a->isConst()) std::swap(a, b);
      else if (!b->isConst() && a->id > b->id) std::swap(a, b);
      break;
    default: break;
    }
    uint64_t m = maskw(w);
    // division of a zero-extended value: done in the narrow width
    if ((k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && a->k == K::ZExt && a->a->w < w && b->isConst() && b->v && !(b->v >> (w - 1))) {
      bool d = k == K::UDiv || k == K::SDiv; unsigned n = a->a->w;
      if (b->v > maskw(n)) return d ? C(0, w) : a;
      return zext(bin(d ? K::UDiv : K::URem, a->a, C(b->v, n)), w);
    }
    switch (k) {
    case K::Add:
      if (b->isConst()) {
        if (b->v == 0) return a;
        if (a->k == K::Add && a->b->isConst()) return bin(K::Add, a->a, C(a->b->v + b->v, w));
        if (a->k == K::Sub && a->a->isConst()) return bin(K::Sub, C(a->a->v + b->v, w), a->b);
        if (a->k == K::Ite && a->b->isConst() && a->c->isConst()) return ite(a->a, C(a->b->v + b->v, w), C(a->c->v + b->v, w));
      }
      break;
    case K::Sub:
      if (a == b) return C(0, w);
      if (b->isConst()) return bin(K::Add, a, C(0 - b->v, w));
      if (a->k == K::Add && a->a == b) return a->b;
      if (a->k == K::Add && a->b == b) return a->a;
      if (a->k == K::Add && b->k == K::Add && a->b->isConst() && b->b->isConst() && a->a == b->a) return C(a->b->v - b->b->v, w);
      if (b->k == K::Add && b->b->isConst() && b->a == a) return C(0 - b->b->v, w);
      break;
    case K::Mul:
      if (b->isConst()) { if (b->v == 0) return b; if (b->v == 1) return a;
        if ((b->v & (b->v - 1)) == 0) return bin(K::Shl, a, C(__builtin_ctzll(b->v), w)); }
      break;
    case K::UDiv:
      if (b->isConst()) { if (b->v == 1) return a;
        if (b->v && (b->v & (b->v - 1)) == 0) return bin(K::LShr, a, C(__builtin_ctzll(b->v), w)); }
      break;
    case K::SDiv: if (b->isConst() && b->v == 1) return a; break;
    case K::URem:
      if (b->isConst()) { if (b->v == 1) return C(0, w);
        if (b->v && (b->v & (b->v - 1)) == 0) return bin(K::And, a, C(b->v - 1, w)); }
      break;
    case K::SRem: if (b->isConst() && b->v == 1) return C(0, w); break;
    case K::And:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->v == 0) return b; if (b->v == m) return a;
        if (a->k == K::And && a->b->isConst()) return bin(K::And, a->a, C(a->b->v & b->v, w));
        if (a->k == K::ZExt && w > a->a->w) { uint64_t im = maskw(a->a->w);
          return zext(bin(K::And, a->a, C(b->v & im, a->a->w)), w); }
        // low mask -> zext(extract)
        if (w > 1 && ((b->v + 1) & b->v) == 0) { unsigned n = 64 - __builtin_clzll(b->v); if (n < w) return zext(extract(a, 0, n), w); }
      }
      if (w == 1) { if (isNot(a) && a->a == b) return f1; if (isNot(b) && b->a == a) return f1; }
      break;
    case K::Or:
      if (a == b) return a;
      if (b->isConst()) { if (b->v == 0) return a; if (b->v == m) return b; }
      if (w == 1) { if (isNot(a) && a->a == b) return t1; if (isNot(b) && b->a == a) return t1; }
      else { // or of disjoint zext / shl  -> concat
        E r = tryOrConcat(a, b); if (r) return r; r = tryOrConcat(b, a); if (r) return r;
      }
      break;
    case K::Xor:
      if (a == b) return C(0, w);
      if (b->isConst()) {
        if (b->v == 0) return a;
        if (a->k == K::Xor && a->b->isConst()) return bin(K::Xor, a->a, C(a->b->v ^ b->v, w));
        if (w == 1 && b->v == 1) {
          if (a->k == K::Ult) return bin(K::Ule, a->b, a->a);
          if (a->k == K::Ule) return bin(K::Ult, a->b, a->a);
          if (a->k == K::Slt) return bin(K::Sle, a->b, a->a);
          if (a->k == K::Sle) return bin(K::Slt, a->b, a->a);
        }
      }
      break;
    case K::Shl: case K::LShr: case K::AShr:
      if (b->isConst()) {
        if (b->v == 0) return a;
        if (b->v >= w) { if (k != K::AShr) return C(0, w); b = C(w - 1, w); }
        if (k == K::LShr) return zext(extract(a, b->v, w - b->v), w);
        if (k == K::Shl) return concat(extract(a, 0, w - b->v), C(0, b->v));
        if (k == K::AShr) return sext(extract(a, b->v, w - b->v), w);
      }
      if (a->isConst() && a->v == 0) return a;
      break;
    case K::Eq:
      if (a == b) return t1;
      if (w == 1) { if (b->isConst()) return b->v ? a : Not(a); }
      if (b->isConst()) {
        if (a->k == K::ZExt) { if (b->v & ~maskw(a->a->w)) return f1; return bin(K::Eq, a->a, C(b->v, a->a->w)); }
        if (a->k == K::SExt) { uint64_t t = b->v & maskw(a->a->w); if (((uint64_t)sx(t, a->a->w) & m) != b->v) return f1; return bin(K::Eq, a->a, C(t, a->a->w)); }
        if (a->k == K::Add && a->b->isConst()) return bin(K::Eq, a->a, C(b->v - a->b->v, w));
        if (a->k == K::Xor && a->b->isConst()) return bin(K::Eq, a->a, C(b->v ^ a->b->v, w));
        if (a->k == K::Sub && a->a->isConst()) return bin(K::Eq, a->b, C(a->a->v - b->v, w));
        if (a->k == K::Concat) {
          unsigned lw = a->b->w;
          E lo = bin(K::Eq, a->b, C(b->v, lw)), hi = bin(K::Eq, a->a, C(b->v >> lw, a->a->w));
          return bin(K::And, hi, lo);
        }
        if (a->k == K::Ite) {
          if (a->b->isConst() && a->c->isConst()) {
            bool x = a->b->v == b->v, y = a->c->v == b->v;
            if (x && y) return t1; if (!x && !y) return f1; return x ? a->a : Not(a->a);
          }
          if (a->b->isConst()) { E r = bin(K::Eq, a->c, b); return a->b->v == b->v ? orb(a->a, r) : andb(Not(a->a), r); }
          if (a->c->isConst()) { E r = bin(K::Eq, a->b, b); return a->c->v == b->v ? orb(Not(a->a), r) : andb(a->a, r); }
        }
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
      break;
    case K::Ult:
      if (a == b) return f1;
      if (b->isConst() && b->v == 0) return f1;
      if (a->isConst() && a->v == m) return f1;
      if (b->isConst() && b->v == 1) return bin(K::Eq, a, C(0, w));
      if (a->k == K::ZExt && b->isConst()) { if (b->v > maskw(a->a->w)) return t1; return bin(K::Ult, a->a, C(b->v, a->a->w)); }
      if (b->k == K::ZExt && a->isConst()) { if (a->v >= maskw(b->a->w)) return f1; return bin(K::Ult, C(a->v, b->a->w), b->a); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Ult, a->a, b->a);
      break;
    case K::Ule:
      if (a == b) return t1;
      if (a->isConst() && a->v == 0) return t1;
      if (b->isConst() && b->v == m) return t1;
      if (a->k == K::ZExt && b->isConst()) { if (b->v >= maskw(a->a->w)) return t1; return bin(K::Ule, a->a, C(b->v, a->a->w)); }
      if (b->k == K::ZExt && a->isConst()) { if (a->v > maskw(b->a->w)) return f1; return bin(K::Ule, C(a->v, b->a->w), b->a); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Ule, a->a, b->a);
      break;
    case K::Slt: case K::Sle: {
      if (a == b) return k == K::Sle ? t1 : f1;
      // zext operands are non-negative: unsigned comparison
      bool an = a->k == K::ZExt && a->a->w < w, bn = b->k == K::ZExt && b->a->w < w;
      bool ac = a->isConst() && !(a->v >> (w - 1)), bc = b->isConst() && !(b->v >> (w - 1));
      if ((an || ac) && (bn || bc)) return bin(k == K::Slt ? K::Ult : K::Ule, a, b);
      if (an && b->isConst()) return f1;           // b negative
      if (bn && a->isConst()) return t1;           // a negative
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
      if (a->k == K::SExt && b->isConst()) { int64_t c = sx(b->v, w), lo = sx(1ull << (a->a->w - 1), a->a->w), hi = -(lo + 1);
        if (c < lo) return f1; if (c > hi) return t1; return bin(k, a->a, C(c, a->a->w)); }
      if (b->k == K::SExt && a->isConst()) { int64_t c = sx(a->v, w), lo = sx(1ull << (b->a->w - 1), b->a->w), hi = -(lo + 1);
        if (c < lo) return t1; if (c > hi) return f1; return bin(k, C(c, b->a->w), b->a); }
      break; }
    default: break;
    }
    return mk(k, cmp ? 1 : w, 0, a, b);
  }
  bool isNot(E a) { return a->k == K::Xor && a->w == 1 && a->b->isTrue(); }
  E tryOrConcat(E hi, E lo) {
    // hi = Concat(x, 0:n), lo = ZExt(y) with y.w <= n
    if (hi->k == K::Concat && hi->b->isConst() && hi->b->v == 0 && lo->k == K::ZExt && lo->a->w <= hi->b->w)
      return concat(hi->a, zext(lo->a, hi->b->w));
    // hi = ZExt(Concat(x,0:n))
    if (hi->k == K::ZExt && hi->a->k == K::Concat && hi->a->b->isConst() && hi->a->b->v == 0 && lo->k == K::ZExt && lo->a->w <= hi->a->b->w)
      return zext(concat(hi->a->a, zext(lo->a, hi->a->b->w)), hi->w);
    return nullptr;
  }
  E zext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) abort();
    if (a->isConst()) return C(a->v, w);
    if (a->k == K::ZExt) return zext(a->a, w);
    return mk(K::ZExt, w, 0, a);
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return C((uint64_t)sx(a->v, a->w), w);
    if (a->k == K::SExt) return sext(a->a, w);
    if (a->k == K::ZExt) return zext(a->a, w);
    return mk(K::SExt, w, 0, a);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->isConst()) return C(a->v >> lo, w);
    switch (a->k) {
    case K::Extract: return extract(a->a, a->v + lo, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return extract(a->a, lo - lw, w);
      if (lo + w <= lw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
    case K::ZExt:
      if (lo >= a->a->w) return C(0, w);
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
      break;
    case K::And: case K::Or: case K::Xor:
      return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
      break;
    case K::Ite:
      if (a->b->isConst() || a->c->isConst() || true) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
      break;
    default: break;
    }
    return mk(K::Extract, w, lo, a);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
    if (hi->isConst() && lo->isConst()) return C(hi->v << lo->w | lo->v, w);
    if (hi->isConst() && hi->v == 0) return zext(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->v == lo->v + lo->w)
      return extract(hi->a, lo->v, w);
    // Concat(Concat(x, Extract hi), Extract lo)
    if (hi->k == K::Concat && hi->b->k == K::Extract && lo->k == K::Extract && hi->b->a == lo->a && hi->b->v == lo->v + lo->w)
      return concat(hi->a, extract(lo->a, lo->v, hi->b->w + lo->w));
    if (hi->k == K::ZExt && lo->k == K::Extract && hi->a->k == K::Extract && hi->a->a == lo->a && hi->a->v == lo->v + lo->w)
      return zext(extract(lo->a, lo->v, hi->a->w + lo->w), w);
    if (hi->k == K::ZExt) return zext(concat(hi->a, lo), w);
    if (hi->k == K::Extract && lo->k == K::Concat && lo->a->k == K::Extract && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
      return concat(extract(hi->a, lo->a->v, hi->w + lo->a->w), lo->b);
    // keep Ite with same condition together
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
      return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return mk(K::Concat, w, 0, hi, lo);
  }
  E ite(E c, E t, E f) {
    if (c->isConst()) return c->v ? t : f;
    if (t == f) return t;
    if (isNot(c)) return ite(c->a, f, t);
    if (t->w == 1) {
      if (t->isTrue() && f->isFalse()) return c;
      if (t->isFalse() && f->isTrue()) return Not(c);
      if (t->isTrue()) return orb(c, f);
      if (f->isFalse()) return andb(c, t);
      if (t->isFalse()) return andb(Not(c), f);
      if (f->isTrue()) return orb(Not(c), t);
    }
    if (f->k == K::Ite && f->a == c) f = f->c;
    if (t->k == K::Ite && t->a == c) t = t->b;
    if (t == f) return t;
    return mk(K::Ite, t->w, 0, c, t, f);
  }
  const SymSet *intern(std::vector<uint32_t> &&v) {
    auto it = symsets.find(v);
    if (it != symsets.end()) return it->second;
    SymSet *s = new SymSet{v};
    symsets.emplace(std::move(v), s);
    return s;
  }
  const SymSet *syms(E e) {
    if (e->syms) return e->syms;
    std::vector<uint32_t> r;
    if (e->k == K::Sym) r.push_back((uint32_t)e->v);
    else {
      const SymSet *A = e->a ? syms(e->a) : nullptr, *B = e->b ? syms(e->b) : nullptr, *D = e->c ? syms(e->c) : nullptr;
      if (A && !B && !D) { e->syms = A; return A; }
      if (A) r = A->v;
      for (auto *S : {B, D}) if (S && !S->v.empty() && S->v != r) {
        std::vector<uint32_t> t; t.reserve(r.size() + S->v.size());
        std::set_union(r.begin(), r.end(), S->v.begin(), S->v.end(), std::back_inserter(t));
        r.swap(t);
      }
    }
    e->syms = intern(std::move(r));
    return e->syms;
  }
  // Evaluation under an assignment; memoised per epoch.
  uint64_t epoch = 0;
  const std::vector<uint64_t> *asg = nullptr;
  uint64_t eval(E e, const std::vector<uint64_t> &m) { ++epoch; asg = &m; return ev(e); }
  uint64_t ev(E e) {
    if (e->k == K::Const) return e->v;
    if (e->k == K::Sym) return e->v < asg->size() ? ((*asg)[e->v] & maskw(e->w)) : 0;
    if (e->evEpoch == epoch) return e->evVal;
    uint64_t r;
    switch (e->k) {
    case K::Concat: r = ev(e->a) << e->b->w | ev(e->b); break;
    case K::Extract: r = (ev(e->a) >> e->v) & maskw(e->w); break;
    case K::ZExt: r = ev(e->a); break;
    case K::SExt: r = (uint64_t)sx(ev(e->a), e->a->w) & maskw(e->w); break;
    case K::Ite: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
    default: r = fold(e->k, ev(e->a), ev(e->b), e->a->w);
    }
    e->evEpoch = epoch; e->evVal = r;
    return r;
  }
  // Truth table of a 1-bit term over its single 8-bit symbol.
  const std::bitset<256> &truth(E e, uint32_t symIdx) {
    if (e->tt) return *e->tt;
    auto *t = new std::bitset<256>;
    std::vector<uint64_t> m(symIdx + 1, 0);
    for (int i = 0; i < 256; ++i) { m[symIdx] = i; if (eval(e, m)) t->set(i); }
    e->tt = t;
    return *t;
  }
  std::string str(E e, int depth = 6) {
    static const char *N[] = {"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","++","ext","zx","sx","ite"};
    if (e->isConst()) return std::to_string(e->v) + ":" + std::to_string(e->w);
    if (e->k == K::Sym) return "s" + std::to_string(e->v);
    if (depth == 0) return "..";
    std::string s = "("; s += N[(int)e->k];
    if (e->k == K::Extract) s += "[" + std::to_string(e->v) + "," + std::to_string(e->w) + "]";
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + str(x, depth - 1);
    return s + ")";
  }
};
extern ExprMgr X;
} // namespace vs
