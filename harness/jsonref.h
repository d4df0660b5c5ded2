// Independent reading of the JSON dialect: tokens and grammars, used as the oracle.
#pragma once
#include "vf.h"
#include <string>
struct Tk { char k; unsigned s, e; };             // k: [ ] { } , : or s(tring) n(umber) k(eyword) ?(other)
struct Toks { Tk t[24]; unsigned n = 0; bool open = false; };
inline bool rIs(const char *t, unsigned i, unsigned n, const char *w, unsigned l) { if (i + l > n) return false; for (unsigned j = 0; j < l; ++j) if (t[i + j] != w[j]) return false; return true; }
inline bool rSpace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline bool rDigit(char c) { return c >= '0' && c <= '9'; }
// Tokens are found on demand: a text is read up to the first token that decides.
struct Lz {
  const char *t; unsigned n; Toks r; unsigned at = 0; bool end = false;
  Lz(const std::string &s) : t(s.data()), n(s.size()) {}
  bool has(unsigned i) { // is there a token i (false at the end of the text and in front of an unterminated string)
    while (r.n <= i && !end) {
      unsigned j = at; while (j < n && rSpace(t[j])) ++j;
      if (j >= n) { end = true; break; }
      unsigned s = j; char k;
      if (t[j] == '"') { for (++j; j < n && t[j] != '"'; ++j) if (t[j] == '\\') ++j; if (j >= n) { r.open = end = true; break; } ++j; k = 's'; }
      else if (rDigit(t[j]) || t[j] == '-' || t[j] == '+') { bool dot = false; for (++j; j < n && (rDigit(t[j]) || (t[j] == '.' && !dot)); ++j) if (t[j] == '.') dot = true; k = 'n'; }
      else if (rIs(t, j, n, "true", 4)) { j += 4; k = 'k'; } else if (rIs(t, j, n, "false", 5)) { j += 5; k = 'k'; } else if (rIs(t, j, n, "null", 4)) { j += 4; k = 'k'; }
      else { char c = t[j++]; k = c == '[' ? '[' : c == ']' ? ']' : c == '{' ? '{' : c == '}' ? '}' : c == ',' ? ',' : c == ':' ? ':' : '?'; }
      r.t[r.n].k = k; r.t[r.n].s = s; r.t[r.n].e = j; ++r.n; at = j;
    }
    return i < r.n;
  }
  char k(unsigned i) { return has(i) ? r.t[i].k : 0; }
  bool last(unsigned i) { return has(i) && !has(i + 1) && !r.open; }   // token i is the end of the text
  const Tk &tk(unsigned i) { return r.t[i]; }
  bool scalar(unsigned i) { char c = k(i); return c == 's' || c == 'n' || c == 'k'; }
  bool single() { return scalar(0) && last(0); }
};
// content of a string or another scalar without quotes
inline unsigned rB(const Tk &t) { return t.k == 's' ? t.s + 1 : t.s; }
inline unsigned rE(const Tk &t) { return t.k == 's' ? t.e - 1 : t.e; }
inline bool rScalar(const Tk &t) { return t.k == 's' || t.k == 'n' || t.k == 'k'; }
// plain decimal, [-]digits with at most maxd digits
inline bool rInt(const char *t, const Tk &k, long &v, unsigned maxd = 6) {
  unsigned b = rB(k), e = rE(k); bool neg = false; if (!rScalar(k)) return false; if (b < e && t[b] == '-') { neg = true; ++b; } if (b == e || e - b > maxd) return false;
  v = 0; for (unsigned i = b; i < e; ++i) { if (!rDigit(t[i])) return false; v = v * 10 + (t[i] - '0'); } if (neg) v = -v; return true;
}
// no escape sequences inside
inline bool rText(const char *t, const Tk &k, std::string &o) { unsigned b = rB(k), e = rE(k); if (!rScalar(k)) return false; for (unsigned i = b; i < e; ++i) if (t[i] == '\\') return false; o.assign(t + b, e - b); return true; }
// Well-formed array of scalars: items [s (, s)*] (array) or {k : s (, k : s)*} (object).  Indices of keys and values are recorded.
struct Items { Tk key[8], val[8]; unsigned n = 0; bool obj = false, wf = false; };
inline Items rItems(Lz &z) {
  Items r; unsigned i = 0; char last;
  if (z.k(0) == '[') last = ']'; else if (z.k(0) == '{') { last = '}'; r.obj = true; } else return r;
  ++i; if (z.k(i) == last) { r.wf = z.last(i); return r; }
  for (;;) {
    if (r.obj) { if (z.k(i) != 's' || z.k(i + 1) != ':') return r; r.key[r.n] = z.tk(i); i += 2; }
    if (!z.scalar(i)) return r; r.val[r.n++] = z.tk(i++);
    if (z.k(i) == last) { r.wf = z.last(i); return r; }
    if (z.k(i) != ',') return r; ++i;
  }
}
// any value: a scalar, or a bracketed sequence; returns the position behind it or 0
inline unsigned rValue(Lz &z, unsigned i, unsigned depth = 0) {
  if (z.scalar(i)) return i + 1; char last = z.k(i) == '[' ? ']' : z.k(i) == '{' ? '}' : 0; if (!last) return 0;
  ++i; if (z.k(i) == last) return i + 1;
  for (;;) {
    if (last == '}') { if (z.k(i) != 's' || z.k(i + 1) != ':') return 0; i += 2; }
    i = rValue(z, i, depth + 1); if (!i) return 0;
    if (z.k(i) == last) return i + 1; if (z.k(i) != ',') return 0; ++i;
  }
}
// ---- reference reader: 0 refused, 1 accepted with this value, 2 not decided here
template <class T> struct Ref;
inline int rAnd(int a, int b) { return !a || !b ? 0 : a == 2 || b == 2 ? 2 : 1; }
template <> struct Ref<int> { static int read(Lz &z, unsigned &i, int &o) {
  if (!z.scalar(i)) return 0; const Tk &k = z.tk(i++); long x; if (rInt(z.t, k, x)) { o = (int)x; return 1; }
  unsigned b = rB(k), e = rE(k); while (b < e && rSpace(z.t[b])) ++b; if (b == e) return 0; if (z.t[b] != '\\' && z.t[b] != '+' && z.t[b] != '-' && !rDigit(z.t[b])) return 0; return 2; } };
template <> struct Ref<bool> { static int read(Lz &z, unsigned &i, bool &o) { if (!z.scalar(i)) return 0; std::string s; if (!rText(z.t, z.tk(i++), s)) return 2; o = s == "true"; return o || s == "false"; } };
template <> struct Ref<std::string> { static int read(Lz &z, unsigned &i, std::string &o) { if (!z.scalar(i)) return 0; return rText(z.t, z.tk(i++), o) ? 1 : 2; } };
// [v, v] or {k : v, k : v}; OnKey says how a key is read, OnVal reads a value
template <class K, class V> int rSeq(Lz &z, unsigned &i, bool arr, bool obj, K onKey, V onVal) {
  char last = z.k(i) == '[' && arr ? ']' : z.k(i) == '{' && obj ? '}' : 0; if (!last) return 0; int r = 1; ++i; if (z.k(i) == last) { ++i; return 1; }
  for (unsigned n = 0;; ++n) {
    Tk key{0, 0, 0}; if (last == '}') { if (z.k(i) != 's') return 0; key = z.tk(i); if (z.k(i + 1) != ':') return 0; i += 2; r = rAnd(r, onKey(key)); if (!r) return 0; }
    int x = onVal(key, n); if (!x) return 0; r = rAnd(r, x);
    if (z.k(i) == last) { ++i; return r; } if (z.k(i) != ',') return 0; ++i; } }
template <class T> struct Ref<std::vector<T>> { static int read(Lz &z, unsigned &i, std::vector<T> &o) {
  std::vector<T> v; std::vector<long> ks; bool obj = z.k(i) == '{', fuzzy = false;
  int r = rSeq(z, i, true, true, [&](const Tk &k) { long x; if (!rInt(z.t, k, x) || z.t[k.s + 1] == '-') { fuzzy = true; ks.push_back(-1); return 2; } for (long y : ks) if (x == y) return 0; ks.push_back(x); return 1; }, [&](const Tk &, unsigned) { T t{}; int x = Ref<T>::read(z, i, t); v.push_back(std::move(t)); return x; });
  if (!r) return 0; o.clear(); if (obj && !fuzzy) { for (long k : ks) if (k >= (long)v.size()) return 0; o.resize(v.size()); for (unsigned j = 0; j < ks.size(); ++j) o[ks[j]] = v[j]; } else o = v; return r; } };
template <class T> struct Ref<std::set<T>> { static int read(Lz &z, unsigned &i, std::set<T> &o) { bool fuzzy = false; o.clear(); return rSeq(z, i, true, false, [](const Tk &) { return 1; }, [&](const Tk &, unsigned) { T t{}; int x = Ref<T>::read(z, i, t); if (x == 1 && !o.insert(t).second) return 0; return x; }); } };
template <class K, class T> struct Ref<std::map<K, T>> { static int read(Lz &z, unsigned &i, std::map<K, T> &o) { o.clear(); K key{}; int known = 1; bool arr = z.k(i) == '[' && z.k(i + 1) != ']';
  int r = rSeq(z, i, true, true, [&](const Tk &k) { Lz q{std::string()}; q.t = z.t; q.r.t[0] = k; q.r.n = 1; q.end = true; unsigned j = 0; key = K{}; known = Ref<K>::read(q, j, key); if (known == 1 && o.count(key)) return 0; return known; }, [&](const Tk &, unsigned) { T t{}; int x = Ref<T>::read(z, i, t); if (known == 1) o.emplace(key, t); return x; }); return arr && r ? 2 : r; } };
template <class T> struct Ref<std::optional<T>> { static int read(Lz &z, unsigned &i, std::optional<T> &o) { std::string s; if (z.scalar(i)) { if (!rText(z.t, z.tk(i), s)) { ++i; return 2; } if (s == "null") { ++i; o.reset(); return 1; } } T t{}; int r = Ref<T>::read(z, i, t); o = t; return r; } };
// fields of an object; Fields calls f(name, target) for each of them
template <class F> int rField(Lz &z, unsigned &i, const Tk &k, F fields) {
  std::string s; if (!rText(z.t, k, s)) { i = rValue(z, i); return 2; } int r = -1; fields([&](const char *n, auto &o) { if (s == n) r = Ref<std::decay_t<decltype(o)>>::read(z, i, o); }); if (r >= 0) return r; if (!z.scalar(i) && z.k(i) != '[' && z.k(i) != '{') return 0; i = rValue(z, i); return i ? 1 : 2; }
template <class F> int rObject(Lz &z, unsigned &i, F fields) { bool lost = false; int r = rSeq(z, i, false, true, [](const Tk &) { return 1; }, [&](const Tk &k, unsigned) { int x = rField(z, i, k, fields); if (!i) lost = true; return lost ? 0 : x; }); return lost ? 2 : r; }
template <class T> int rWhole(Lz &z, T &o) { unsigned i = 0; int r = Ref<T>::read(z, i, o); if (!r) return 0; if (!i) return 2; return z.last(i - 1) ? r : 0; }
