#include "vf.h"
#include <climits>
#include <limits>
#include <tuple>
#include <string>
#include <memory>
#include <vector>
#include <bcl/utility.h>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/IteratorDataAdaptor.h>
// ---- pairs squeezed in a word
template <class F, class S, class T> static void squeeze() {
  F f = vf_any<F>("first"); S s = vf_any<S>("second");
  struct { T pre, out, post; } w; w.pre = (T)0x5a5a5a5a5a5a5a5aull; w.post = (T)0x6b6b6b6b6b6b6b6bull; w.out = vf_any<T>("old");
  constexpr unsigned H = sizeof(T) / 2 * 8;
  auto fits = [](auto v) { using U = std::make_unsigned_t<decltype(v)>; if constexpr (sizeof(v) * 8 <= H) return true; else return (U)v >> H == 0; };
  bool ok = fits(f) & fits(s);
  bool viaPair = vf_bool("as_pair"); T old = w.out;
  bool r = viaPair ? bcl::shrinkPair(std::pair<F, S>(f, s), w.out) : bcl::shrinkPair(f, s, w.out);
  vf_check(r == ok, "a pair is packed iff both values fit in a half of the word");
  vf_check(w.pre == (T)0x5a5a5a5a5a5a5a5aull && w.post == (T)0x6b6b6b6b6b6b6b6bull, "nothing around the word is changed");
  if (!ok) { vf_check(w.out == old, "a refused pair leaves the word as it was"); vf_reach("refused"); return; }
  vf_reach("packed");
  if constexpr (sizeof(F) >= sizeof(T) / 2 && sizeof(S) >= sizeof(T) / 2) {
    struct { F f; char g; } a; struct { S s; char g; } b; a.f = vf_any<F>("o1"); b.s = vf_any<S>("o2"); a.g = b.g = 77;
    bcl::restoreShrinkedPair(w.out, a.f, b.s);
    vf_check(a.f == f, "the first value is restored"); vf_check(b.s == s, "the second value is restored");
    vf_check(a.g == 77 && b.g == 77, "nothing around the values is changed");
  } else {
    // the halves of the word are the values, zero extended
    uint64_t x = (uint64_t)w.out; uint64_t m = H >= 64 ? ~0ull : (1ull << H) - 1; uint64_t fz = 0, sz = 0; __builtin_memcpy(&fz, &f, sizeof(F)); __builtin_memcpy(&sz, &s, sizeof(S));
    vf_check((x & m) == fz && ((x >> H) & m) == sz, "each half of the word keeps its value");
  }
}
VF_ENTRY(pair_u32_u64) { squeeze<uint32_t, uint32_t, uint64_t>(); }
VF_ENTRY(pair_mixed) {
  switch (vf_choose(8, "types")) {
  case 0: squeeze<uint64_t, uint64_t, uint64_t>(); break;
  case 1: squeeze<int64_t, uint32_t, uint64_t>(); break;
  case 2: squeeze<int32_t, int64_t, uint64_t>(); break;
  case 3: squeeze<uint16_t, int16_t, uint32_t>(); break;
  case 4: squeeze<int32_t, uint64_t, uint32_t>(); break;
  case 5: squeeze<uint8_t, uint16_t, uint64_t>(); break;
  case 6: squeeze<int8_t, int32_t, int32_t>(); break;
  case 7: squeeze<uint8_t, int8_t, uint16_t>(); break;
  }
}
// the word takes the place of one of the values, and comes back to it
VF_ENTRY(pair_place) {
  uint64_t f = vf_any<uint64_t>("first"), s = vf_any<uint64_t>("second"), f0 = f, s0 = s; bool ok = ((f >> 32) == 0) & ((s >> 32) == 0), second = vf_bool("second_place");
  uint64_t &w = second ? s : f; bool r = vf_bool("as_pair") ? bcl::shrinkPair(std::pair<uint64_t &, uint64_t &>(f, s), w) : bcl::shrinkPair(f, s, w);
  vf_check(r == ok, "a pair is packed iff both values fit in a half of the word"); if (!ok) { vf_check(f == f0 && s == s0, "a refused pair leaves the word as it was"); return; }
  vf_check(w == (s0 << 32 | f0) && (second ? f == f0 : s == s0), "each half of the word keeps its value and nothing else"); if (second) f = 1; else s = 1;
  bcl::restoreShrinkedPair(w, f, s); vf_check(f == f0 && s == s0, "values are restored"); vf_reach("place");
}
// values with bytes which their constructors do not set
struct Part { uint8_t a, unused; Part() {} explicit Part(uint8_t x) : a(x), unused(0) {} Part(const Part &o) : a(o.a) {} };
VF_ENTRY(pair_partial) {
  uint8_t x = vf_any<uint8_t>("x"), y = vf_any<uint8_t>("y"); Part f(x), s(y), rf, rs; uint64_t w = vf_any<uint64_t>("old"); vf_check(bcl::shrinkPair(f, s, w), "small values are packed"); vf_check(w == ((uint64_t)y << 32 | x), "each half of the word keeps its value and nothing else");
  uint32_t v = vf_any<uint32_t>("older"); vf_check(bcl::shrinkPair(std::make_pair(f, s), v) && v == ((uint32_t)y << 16 | x), "each half of the word keeps its value and nothing else"); bcl::restoreShrinkedPair(v, rf, rs); vf_check(rf.a == x && rs.a == y, "values are restored"); vf_reach("partial");
}
// ---- digits
template <class T> static void digits(T v, T base) {
  std::size_t d = bcl::numberOfDigits(v, base), z = bcl::numberOfLessZeros(v, base);
  // reference: powers
  std::size_t rd = 1; uint64_t ua = v < 0 ? 0 - (uint64_t)v : (uint64_t)v, pw = 1;
  while (pw <= ua / (uint64_t)base) { pw *= (uint64_t)base; ++rd; }
  vf_check(d == rd, "number of digits");
  std::size_t rz = 0; uint64_t q = ua; if (!ua) rz = 1; else while (q % (uint64_t)base == 0) { q /= (uint64_t)base; ++rz; }
  vf_check(z == rz, "number of trailing zeros");
  if (z > 1) vf_reach("zeros"); if (d > 3) vf_reach("long");
}
VF_ENTRY(digits8) { int b = (int)vf_fix(vf_in<uint8_t>(2, 255, "base")); switch (vf_choose(3, "type")) { case 0: digits<int>(vf_any<int8_t>("v"), b); break; case 1: digits<unsigned>(vf_any<uint8_t>("v"), b); break; default: digits<long>(vf_any<int8_t>("v"), b); } }
VF_ENTRY(digits16) { unsigned b = vf_param("base", 10); digits<unsigned>(vf_any<uint16_t>("v"), b); }
VF_ENTRY(digits32) { int b = vf_param("base", 10); digits<int>(vf_any<int32_t>("v"), b); }
VF_ENTRY(digits64) { uint64_t b = vf_param("base", 16); digits<uint64_t>(vf_any<uint64_t>("v"), b); }
// values around the powers of the base and the limits of the type
template <class T> static void digitsNear(T base) {
  unsigned pw = 0; T top = std::numeric_limits<T>::max(); for (T t = top; t >= base; t /= base) ++pw; unsigned k = vf_choose(pw + 2, "power"); T v = top; if (k <= pw) { v = 1; for (unsigned i = 0; i < k; ++i) v *= base; }
  int8_t d = vf_in<int8_t>(-(int)vf_param("near", 20), (int)vf_param("near", 20), "delta"); if (k > pw) vf_assume(d <= 0); if (!std::is_signed_v<T> && k <= pw) vf_assume((d >= 0) | (v > (T)100)); v = (T)(v + d); if (std::is_signed_v<T> && vf_bool("negative")) v = k > pw ? (T)(std::numeric_limits<T>::min() - d) : (T)(0 - v);
  digits<T>(v, base);
}
VF_ENTRY(digits_near) { switch (vf_choose(6, "type")) { case 0: digitsNear<long>(10); break; case 1: digitsNear<unsigned long>(10); break; case 2: digitsNear<int>(10); break; case 3: digitsNear<unsigned>(7); break; case 4: digitsNear<long long>(1000); break; case 5: digitsNear<long>(2); break; } vf_reach("near"); }
// ---- masks and bits
template <class T> static void mask() {
  typedef std::make_unsigned_t<T> U; unsigned n = vf_choose(sizeof(T) * 8 + 1, "digits"); U r = (U)bcl::unitMask<T>(n);
  for (unsigned i = 0; i < sizeof(T) * 8; ++i) vf_check(((r >> i) & 1) == (i < n), "bit i of the mask is set iff i < number of digits");
  if (n == sizeof(T) * 8) vf_reach("full");
}
VF_ENTRY(masks) { switch (vf_choose(6, "type")) { case 0: mask<uint8_t>(); break; case 1: mask<uint16_t>(); break; case 2: mask<uint32_t>(); break; case 3: mask<uint64_t>(); break; case 4: mask<int64_t>(); break; case 5: mask<int>(); break; } }
struct Bits { unsigned char b[80]; unsigned n = 0; template <class X> Bits &operator<<(X x) { vf_check(n < 80, "length of the text"); b[n++] = (unsigned char)x; if ((uint64_t)x > 1) vf_fail("a digit is 0 or 1"); return *this; } };
template <class T> static void bits() {
  typedef std::make_unsigned_t<T> U; T v = vf_any<T>("v"); Bits s; bcl::bitPrint(v, s);
  vf_check(s.n == sizeof(T) * 8, "one digit per bit");
  for (unsigned i = 0; i < sizeof(T) * 8; ++i) vf_check(s.b[i] == (((U)v >> (sizeof(T) * 8 - 1 - i)) & 1), "digits from the most significant bit"); vf_reach("printed");
}
VF_ENTRY(bit_text) { switch (vf_choose(6, "type")) { case 0: bits<uint8_t>(); break; case 1: bits<int8_t>(); break; case 2: bits<uint16_t>(); break; case 3: bits<int>(); break; case 4: bits<uint64_t>(); break; case 5: bits<int64_t>(); break; } }
template <char... B> struct Lit { static constexpr unsigned long long value() { return bcl::operator "" _b<B...>(); } };
template <unsigned N, char... B> struct Tail { static void run(unsigned long long expect0) {
  // value(1 B...) == value(0 B...) + 2^sizeof...(B) : by induction every literal equals its definition
  constexpr unsigned L = sizeof...(B);
  vf_check((Lit<'1', B...>::value() == (1ull << L) + expect0) && (Lit<'0', B...>::value() == expect0), "a binary literal equals its definition");
  if constexpr (L < N) { if constexpr (L % 3 == 1) Tail<N, '0', B...>::run(expect0); else Tail<N, '1', B...>::run((1ull << L) + expect0); } else vf_reach("literals");
} };
VF_ENTRY(literals) { Tail<63, '0'>::run(0); Tail<63, '1'>::run(1); }
// ---- quote, swap, whitespace, small helpers
VF_ENTRY(quote_text) {
  unsigned n = vf_choose(vf_param("n", 4) + 1, "length"); char c[16]; for (unsigned i = 0; i < n; ++i) c[i] = vf_any<char>("c");
  std::string s(c, n); bool q = (n > 1) && c[0] == '"' && c[n - 1] == '"';
  bool rv = vf_bool("rvalue"); std::string in(s); std::string r = rv ? bcl::quote(std::move(in)) : bcl::quote(static_cast<const std::string &>(in));
  if (!rv) vf_check(in == s, "the argument is unchanged");
  vf_check(r.size() == (q ? n : n + 2), "quotes are added iff the text is not quoted");
  if (q) { vf_check(r == s, "quoted text is returned as is"); vf_reach("quoted"); }
  else { vf_check(r[0] == '"' && r[n + 1] == '"', "begins and ends with a quote"); for (unsigned i = 0; i < n; ++i) vf_check(r[i + 1] == c[i], "the text is kept"); vf_reach("added"); }
  vf_check(bcl::quote(r) == r, "quoting twice is quoting once");
}
template <unsigned N> struct Blob { unsigned char b[N]; private: Blob &operator=(const Blob &); };
template <unsigned N> struct Pod { unsigned char b[N]; };
template <unsigned N> static void swapN() {
  uint64_t live0 = vf_live_allocs(); Pod<N> m[4]; Pod<N> o[4];
  for (unsigned k = 0; k < 4; ++k) for (unsigned i = 0; i < N; ++i) o[k].b[i] = m[k].b[i] = vf_any<unsigned char>("b");
  unsigned l = vf_choose(4, "left"), r = vf_choose(4, "right"); bcl::swapMemory(m[l], m[r]);
  for (unsigned k = 0; k < 4; ++k) { unsigned s = k == l ? r : k == r ? l : k; for (unsigned i = 0; i < N; ++i) vf_check(m[k].b[i] == o[s].b[i], "the objects are exchanged and nothing else is changed"); }
  vf_check(vf_live_allocs() == live0, "temporary storage is released"); vf_reach("swapped");
}
VF_ENTRY(swap_memory) { switch (vf_choose(5, "size")) { case 0: swapN<1>(); break; case 1: swapN<2>(); break; case 2: swapN<7>(); break; case 3: swapN<8>(); break; case 4: swapN<13>(); break; } }
template <unsigned N> static void swapLarge() { // all bytes depend on a symbolic one
  uint64_t live0 = vf_live_allocs(); std::unique_ptr<Pod<N>[]> m(new Pod<N>[3]); unsigned char x = vf_any<unsigned char>("x"); auto was = [x](unsigned k, unsigned i) { return (unsigned char)(x + k * 85 + i + i / 256 * 3); };
  for (unsigned k = 0; k < 3; ++k) for (unsigned i = 0; i < N; ++i) m[k].b[i] = was(k, i);
  unsigned l = vf_choose(3, "left"), r = vf_choose(3, "right"); bcl::swapMemory(m[l], m[r]);
  for (unsigned k = 0; k < 3; ++k) { unsigned s = k == l ? r : k == r ? l : k; for (unsigned i = 0; i < N; ++i) vf_check(m[k].b[i] == was(s, i), "the objects are exchanged and nothing else is changed"); }
  m.reset(); vf_check(vf_live_allocs() == live0, "temporary storage is released"); vf_reach("swapped");
}
VF_ENTRY(swap_large) { switch (vf_choose(8, "size")) { case 0: swapLarge<16>(); break; case 1: swapLarge<33>(); break; case 2: swapLarge<64>(); break; case 3: swapLarge<65>(); break; case 4: swapLarge<129>(); break; case 5: swapLarge<256>(); break; case 6: swapLarge<1030>(); break; case 7: swapLarge<4100>(); break; } }
VF_ENTRY(quote_long) { // texts which do not fit in a short buffer
  static const unsigned L[] = {14, 15, 16, 22, 30, 31, 62, 126, 254, 255, 256, 1022}; unsigned n = L[vf_choose(12, "length")]; std::string s(n, 'x'); unsigned at[] = {0, 1, n / 2, n - 2, n - 1}; for (unsigned i : at) s[i] = vf_any<char>("c");
  bool q = s[0] == '"' && s[n - 1] == '"'; std::string in(s), r = vf_bool("rvalue") ? bcl::quote(std::move(in)) : bcl::quote(static_cast<const std::string &>(in)); vf_check(r.size() == (q ? n : n + 2), "quotes are added iff the text is not quoted");
  for (unsigned i = 0; i < n; ++i) vf_check(r[q ? i : i + 1] == s[i], "the text is kept"); if (!q) vf_check(r[0] == '"' && r[n + 1] == '"', "begins and ends with a quote"); vf_check(bcl::quote(r) == r, "quoting twice is quoting once"); vf_reach(q ? "quoted" : "added");
}
VF_ENTRY(whitespace) { unsigned char c = vf_any<unsigned char>("c"); vf_check(bcl::isWhitespace(c) == ((c == ' ') | (c == '\t') | (c == '\f') | (c == '\v') | (c == '\r')), "non-new-line whitespace"); vf_reach("ws"); }
// ---- value/pointer wrapper
struct Obj { int v; static int alive; Obj(int a, int b) : v(a + b) { ++alive; } Obj(Obj &&o) : v(o.v) { o.v = -1; ++alive; } Obj &operator=(Obj &&o) { int t = o.v; o.v = -1; v = t; return *this; } ~Obj() { --alive; } };
int Obj::alive = 0;
typedef bcl::ValuePtrWrapper<Obj> VP;
VF_ENTRY(value_ptr) {
  unsigned ops = vf_param("ops", 3); Obj *ptr[8] = {}; int val[8]; int order[8]; unsigned n = 0, made = 0; Obj::alive = 0;
  uint64_t live0 = vf_live_allocs();
  {
    std::vector<VP> pool;
    for (unsigned i = 0; i < ops; ++i) {
      switch (vf_choose(4, "op")) {
      case 0: { int a = vf_any<uint16_t>("a"), b = vf_any<uint16_t>("b"); val[made] = a + b; pool.emplace_back(ptr[made], a, b); order[n++] = made++; break; }
      case 1: if (n) { unsigned k = vf_choose(n, "at"); pool.erase(pool.begin() + k); for (unsigned j = k; j + 1 < n; ++j) order[j] = order[j + 1]; --n; vf_reach("erased"); } break;
      case 2: if (n > 1) { unsigned k = vf_choose(n - 1, "at"); std::swap(pool[k], pool[n - 1]); int t = order[k]; order[k] = order[n - 1]; order[n - 1] = t; vf_reach("swapped"); } break;
      case 3: { std::vector<VP> other(std::move(pool)); pool.reserve(n + 3); for (auto &x : other) pool.push_back(std::move(x)); break; }
      }
      vf_check(pool.size() == n, "size");
      for (unsigned k = 0; k < n; ++k) {
        Obj *p = ptr[order[k]];
        vf_check(p == &pool[k] && p == pool[k].operator->() && p == &*pool[k], "the known pointer follows the value");
        vf_check(p->v == val[order[k]], "the value is carried along"); vf_check(((Obj &)pool[k]).v == p->v && ((const Obj &)static_cast<const VP &>(pool[k])).v == p->v, "the wrapper behaves as the value");
      }
      vf_check(Obj::alive == (int)n, "every value is destroyed once");
    }
    if (n > 1) vf_reach("several");
  }
  vf_check(Obj::alive == 0 && vf_live_allocs() == live0, "all values are destroyed");
}
// ---- iterator with attached data
struct Both { int a; uint32_t d; Both(const int &x, uint32_t y) : a(x), d(y) {} };
VF_ENTRY(iter_data) {
  int arr[4]; for (auto &x : arr) x = vf_any<int>("v"); uint32_t d = vf_any<uint32_t>("data"), d2 = vf_any<uint32_t>("data2");
  typedef bcl::IteratorDataAdaptor<const int *, uint32_t, Both> It;
  It i(arr, d), e(arr + 4, d); unsigned n = 0;
  while (i != e) {
    vf_check(!(i == e) && n < 4, "walks to the end"); Both b = *i; vf_check(b.a == arr[n] && b.d == d, "yields the element with the data");
    vf_check(i.getIterator() == arr + n && i.getData() == d && static_cast<const It &>(i).getIterator() == arr + n && static_cast<const It &>(i).getData() == d, "parts");
    It other(arr + n, d2); vf_check((i == other) == (d == d2) && (i != other) == (d != d2), "equal iff both position and data are equal");
    It p(arr + (n ^ 1), d); vf_check(!(i == p) && i != p, "different positions differ");
    if (vf_bool("post")) { It old = i++; vf_check(old.getIterator() == arr + n && old.getData() == d, "post form returns the old position"); } else { It &r = ++i; vf_check(&r == &i, "returns itself"); }
    ++n;
  }
  vf_check(n == 4 && i == e, "every element once"); vf_reach("end");
}
// ---- list-of-types helpers
template <class T> struct Sum { uint64_t *h; void operator()(T) const {} };
struct Fold { uint64_t h = 1; template <class T> void operator()(T v) { h = h * 31 + (uint64_t)v; } };
VF_ENTRY(type_lists) {
  vf_check((bcl::index_of<int, int, char, long>() == 0 && bcl::index_of<char, int, char, long>() == 1 && bcl::index_of<long, int, char, long>() == 2), "position of a type in a list");
  vf_check((bcl::size_of<>() == 0 && bcl::size_of<int>() == 1 && bcl::size_of<int, int, char>() == 3), "number of types in a list");
  vf_check((bcl::is_contained<int, char, int>::value && bcl::is_contained<int, int, char>::value && !bcl::is_contained<int, char, long>::value && !bcl::is_contained<int>::value), "membership in a list of types");
  int a5[5]; char a1[1]; vf_check(bcl::array_sizeof(a5) == 5 && bcl::array_sizeof(a1) == 1, "number of elements");
  uint8_t x = vf_any<uint8_t>("x"); int y = vf_any<int16_t>("y"); long z = vf_any<int32_t>("z"); Fold f; bcl::staticForeach(f, x, y, z);
  vf_check(f.h == ((1 * 31 + (uint64_t)x) * 31 + (uint64_t)y) * 31 + (uint64_t)z, "a function is applied to every value in order");
  auto p = bcl::make_unique_piecewise<std::pair<int, long>>(std::tuple<int, long>(y, z)); vf_check(p->first == y && p->second == z, "arguments are forwarded in order");
  auto u = bcl::make_unique<std::pair<int, long>>(y, z); vf_check(u->first == y && u->second == z, "arguments are forwarded in order");
  unsigned n = vf_choose(4, "n"); auto arr = bcl::make_unique<int[]>(n); for (unsigned i = 0; i < n; ++i) vf_check(arr[i] == 0, "array elements are zero"); vf_reach("lists");
}
// ---- logic of types
namespace U = Utility;
struct TwoA { int v() const { return 1; } }; struct TwoB { int v() const { return 2; } };
struct Sum2 { long s; Sum2 &operator+=(const Sum2 &o) { s += o.s; return *this; } };
struct NoCopy : bcl::Uncopyable { int x; }; struct NoAssign : bcl::Unassignable { int x; };
VF_ENTRY(type_logic) {
  typedef U::True T; typedef U::False F;
  vf_check((T::Value() && !F::Value() && U::Constant<int, 42>::Value() == 42 && U::Constant<long, -7>::Value() == -7), "constants");
  vf_check(!U::Not<T>::Value() && U::Not<F>::Value() && U::Not<U::Not<T>>::Value(), "negation");
  vf_check((U::And<T, T>::Value() && !U::And<T, F>::Value() && !U::And<F, T>::Value() && !U::And<F, F>::Value()), "conjunction");
  vf_check((U::Or<T, T>::Value() && U::Or<T, F>::Value() && U::Or<F, T>::Value() && !U::Or<F, F>::Value()), "disjunction");
  vf_check((U::If<T, TwoA, TwoB>::Result().v() == 1 && U::If<F, TwoA, TwoB>::Result().v() == 2 && U::If<U::Not<T>, TwoA, TwoB>::Result().v() == 2), "choice");
  vf_check((U::IsIdentical<int, int>::Value() && !U::IsIdentical<int, long>::Value() && !U::IsIdentical<int, const int>::Value() && !U::IsIdentical<int, int &>::Value()), "identity of types");
  vf_check((U::IsScalar<short>::Value() && U::IsScalar<int>::Value() && U::IsScalar<long>::Value() && U::IsScalar<long long>::Value() && U::IsScalar<unsigned short>::Value() && U::IsScalar<unsigned>::Value() && U::IsScalar<unsigned long>::Value() && U::IsScalar<unsigned long long>::Value() && U::IsScalar<float>::Value() && U::IsScalar<double>::Value() && U::IsScalar<char>::Value() && U::IsScalar<wchar_t>::Value() && !U::IsScalar<TwoA>::Value() && !U::IsScalar<int *>::Value() && !U::IsScalar<int &>::Value()), "scalar types");
  vf_check((U::IsReference<int &>::Value() && !U::IsReference<int>::Value() && !U::IsReference<int *>::Value() && U::IsPointer<int *>::Value() && U::IsPointer<TwoA **>::Value() && !U::IsPointer<int>::Value() && !U::IsPointer<int &>::Value()), "references and pointers");
  vf_check((std::is_same<U::TypeTraits<int>::Reference, int &>::value && std::is_same<U::TypeTraits<int>::ReferenceC, const int &>::value && std::is_same<U::TypeTraits<int>::Pointer, int *>::value && std::is_same<U::TypeTraits<int>::PointerC, const int *>::value && std::is_same<U::TypeTraits<int *>::Type, int *>::value && std::is_same<U::TypeTraits<int *>::Reference, int &>::value && std::is_same<U::TypeTraits<int *>::PointerC, const int *>::value && std::is_same<U::Pointer<int>::Declaration, int *>::value), "derived types");
  long a = vf_any<int32_t>("a"), b = vf_any<int32_t>("b"); Sum2 x{a}, y{b}; U::AddToObjectIf(F(), x, y); vf_check(x.s == a && y.s == b, "nothing is added"); U::AddToObjectIf(T(), x, y); vf_check(x.s == a + b && y.s == b, "an object is added");
  vf_check(!std::is_copy_constructible<NoCopy>::value && !std::is_copy_assignable<NoCopy>::value && std::is_move_constructible<NoCopy>::value && !std::is_copy_assignable<NoAssign>::value, "classes which must not be copied or assigned");
  NoCopy n; n.x = (int)a; NoCopy m(std::move(n)); vf_check(m.x == (int)a, "such an object may be moved"); vf_reach("logic");
}
