#include "vf.h"
#include <deque>
#include <bcl/Json.h>
#include "jsonref.h"
// storage is released by the end of an entry
struct Leak { uint64_t n = vf_live_allocs(); ~Leak() { vf_check(vf_live_allocs() == n, "everything that was allocated is released"); } };
// which part of the oracle belongs to the property under check: 1 acceptance, 2 values
static bool part(int b) { return vf_param("oracle", 3) & b; }
#define ACC(c, m) do { if (part(1)) vf_check(c, m); } while (0)
#define VAL(c, m) do { if (part(2)) vf_check(c, m); } while (0)
// ---- arbitrary texts -------------------------------------------------------
static std::string anyText(unsigned max, unsigned min = 0) {
  unsigned n = min + vf_choose(max - min + 1, "length"); char b[32]; vf_sym(b, n, "text");
  if (vf_param("narrow", 0)) for (unsigned i = 0; i < n; ++i) { char c = b[i]; vf_assume_((c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == ',') | (c == ':') | (c == '"') | (c == '1') | (c == '0') | (c == ' ') | (c == 'x') | (c == '\\')); }
  return std::string(b, n);
}
static std::string firstIs(std::string t, const char *cls) { if (t.empty()) vf_end_path(); bool ok = false; for (; *cls; ++cls) ok |= t[0] == *cls; vf_assume(ok); return t; }
template <class T> static bool run(const std::string &t, T &v) {
  json::Parser<> p(t); bool ok = p.parse(v);
  vf_check(ok == !p.hasErrors(), "parsing succeeds exactly when no error is recorded");
  vf_check(!p.errors().internal_size(), "errors are recorded with their text");
  vf_observe(ok);
  return ok;
}
// the lexer alone: tokens cover the text in order and agree with the dialect
VF_ENTRY(json_lexer) { Leak lk;
  std::string t = anyText(vf_param("n", 4)); Lz z(t); while (z.has(z.r.n)) ; const Toks &r = z.r; json::Lexer l(t); vf_check(l.json() == t, "text is kept");
  unsigned i = 0; json::Position prev = 0;
  while (l.goToNext()) {
    vf_check(prev <= l.start() && l.start() <= l.end() && l.end() < l.next() && l.next() <= t.size(), "positions of a token"); prev = l.next();
    vf_check(i < r.n && l.start() == r.t[i].s && l.end() + 1 == r.t[i].e && l.next() == r.t[i].e, "tokens are found at their places");
    char k = r.t[i].k; json::Token x = k == 's' ? json::Token::IDENTIFIER : k == 'n' ? json::Token::NUMBER : k == 'k' ? json::Token::KEYWORD : static_cast<json::Token>(k);
    if (k != '?') vf_check(l.is(x), "kind of a token"); else vf_check(!l.is(json::Token::IDENTIFIER) && !l.is(json::Token::NUMBER) && !l.is(json::Token::KEYWORD) && !l.is(json::Token::LEFT_BRACE) && !l.is(json::Token::COMMA) && !l.is(json::Token::COLON), "kind of a token");
    bool dot = false; for (unsigned j = r.t[i].s; j < r.t[i].e; ++j) dot |= t[j] == '.';
    vf_check(l.isIntegral() == (k == 'n' && !dot) && l.isFloatingPoint() == (k == 'n' && dot), "kind of a number");
    vf_check(l.isKeyword(json::Keyword::TRUE) == (k == 'k' && t[r.t[i].s] == 't') && l.isKeyword(json::Keyword::FALSE) == (k == 'k' && t[r.t[i].s] == 'f') && l.isKeyword(json::Keyword::NO_VALUE) == (k == 'k' && t[r.t[i].s] == 'n'), "kind of a keyword");
    auto q = l.discardQuote(); vf_check(q.first == rB(r.t[i]) && q.second + 1 == rE(r.t[i]), "quotes are discarded"); ++i;
  }
  vf_check(i == r.n && l.hasErrors() && l.errors().size() == 1, "every token is found, the end is reported"); vf_reach("lexed");
  // positions may be stored and restored
  if (r.n > 1) { json::Lexer m(t); m.goToNext(); m.storePosition(); auto s = m.start(), e = m.end(), x = m.next(); m.goToNext(); m.storePosition(); auto s2 = m.start(); m.setPosition(0); vf_check(m.start() == s, "position is set"); m.restorePosition(); vf_check(m.start() == s2, "inner position"); m.restorePosition();
    vf_check(m.start() == s && m.end() == e && m.next() == x && m.is(json::Token::IDENTIFIER) == (r.t[0].k == 's') && m.is(json::Token::NUMBER) == (r.t[0].k == 'n'), "outer position"); m.restorePosition(); vf_check(m.start() == s, "nothing to restore"); m.goToNext(); vf_check(m.start() == s2, "lexer goes on after the restored token"); vf_reach("restored"); }
}
// a lexer comes back to the token which was current, whatever has been read in between
struct Snap { json::Position s, e, n; bool id, num, kt, kf, kn, in, fl, inv; char c;
  explicit Snap(const json::Lexer &l) : s(l.start()), e(l.end()), n(l.next()), id(l.is(json::Token::IDENTIFIER)), num(l.is(json::Token::NUMBER)), kt(l.isKeyword(json::Keyword::TRUE)), kf(l.isKeyword(json::Keyword::FALSE)), kn(l.isKeyword(json::Keyword::NO_VALUE)), in(l.isIntegral()), fl(l.isFloatingPoint()), inv(l.is(json::Token::INVALID)) {}
  bool operator==(const Snap &o) const { return s == o.s && e == o.e && n == o.n && id == o.id && num == o.num && kt == o.kt && kf == o.kf && kn == o.kn && in == o.in && fl == o.fl && inv == o.inv; } };
VF_ENTRY(json_restore) { Leak lk;
  static const char *const W[] = {"true ", "false ", "null ", "7 ", "2.5 ", "\"s\" ", "[ ", ", "}; std::string t; unsigned k = vf_param("k", 3); unsigned at[6], n = 0;
  for (unsigned i = 0; i < k; ++i) { at[n++] = t.size(); t += W[vf_choose(8, "token")]; }
  json::Lexer l(t); vf_check(l.is(json::Token::INVALID) && !l.isIntegral() && !l.isKeyword(json::Keyword::NO_VALUE), "nothing is current before the first token");
  unsigned skip = vf_choose(k, "skip"); for (unsigned i = 0; i <= skip; ++i) vf_check(l.goToNext() && l.start() == at[i], "token");
  Snap a(l); l.storePosition(); unsigned how = vf_choose(3, "how");
  if (how == 0) while (l.goToNext()) ; else if (how == 1) { l.setPosition(at[vf_choose(k, "to")]); } else l.resetPosition();
  Snap b(l); if (vf_bool("nested")) { l.storePosition(); l.resetPosition(); vf_check(l.goToNext() && l.start() == 0, "start"); l.restorePosition(); vf_check(Snap(l) == b, "inner token is current again"); }
  l.restorePosition(); vf_check(Snap(l) == a, "outer token is current again"); vf_reach(a.kt || a.kf || a.kn ? "keyword" : "other");
  if (skip + 1 < k) vf_check(l.goToNext() && l.start() == at[skip + 1], "the next token follows");
}
// questions about the current token: an answer "no" is recorded once, an answer "yes" never
VF_ENTRY(json_checks) { Leak lk;
  std::string t = anyText(vf_param("n", 3)); Lz z(t); json::Lexer l(t); if (!l.goToNext()) { vf_check(!z.has(0), "the end"); return; }
  vf_check(z.has(0), "a token"); char k = z.r.t[0].k; unsigned q = vf_choose(8, "question"); bool want, got; uint64_t e0 = l.errors().size(); Snap a(l);
  static const char X[] = "{}[],:";
  if (q < 6) { want = k == X[q]; got = l.checkSpecial(static_cast<json::Token>(X[q])); } else if (q == 6) { want = k == 's'; got = l.checkIdentifier(); } else { want = k == 's' || k == 'n' || k == 'k'; got = l.checkValue(); }
  vf_check(got == want, "answer about a token"); vf_check(l.errors().size() == e0 + !want && l.hasErrors() == (e0 + !want != 0) && !l.errors().internal_size(), "an answer no is recorded"); vf_check(Snap(l) == a, "a question does not move"); vf_reach(want ? "yes" : "no");
}
// everything up to the bracket which closes the current one is skipped
static void skipTo(const std::string &t, unsigned from, unsigned close, bool ok) {
  json::Lexer l(t); l.setPosition(from); vf_check(l.start() == from && !l.hasErrors(), "opening bracket"); bool r = l.skipInternal(); vf_check(r == ok && l.hasErrors() == !ok, "whatever is between brackets can be skipped if there is the closing one"); if (ok) vf_check(l.start() == close && l.end() == close && l.next() == close + 1, "the closing bracket is current");
}
VF_ENTRY(json_skip) { Leak lk;
  std::string t = anyText(vf_param("n", 5)); Lz z(t); if (!z.has(0)) return; char k0 = z.r.t[0].k; if (k0 != '[' && k0 != '{') { json::Lexer l(t); l.goToNext(); vf_check(!l.skipInternal() && l.errors().size() == 1, "there is nothing to skip"); vf_reach("nothing"); return; }
  char st[16]; unsigned d = 0, i = 0; for (; z.has(i); ++i) { char k = z.r.t[i].k; if (k == '[' || k == '{') st[d++] = k; else if (k == ']' || k == '}') { if (st[d - 1] != (k == ']' ? '[' : '{')) { if (d == 1) { json::Lexer l(t); l.goToNext(); vf_check(!l.skipInternal() && l.hasErrors(), "a bracket of another kind closes nothing"); vf_reach("other"); } return; } if (!--d) break; } }
  if (d) { skipTo(t, z.r.t[0].s, 0, false); vf_reach("open"); } else { skipTo(t, z.r.t[0].s, z.r.t[i].s, true); vf_reach("closed"); }
}
VF_ENTRY(json_deep) { Leak lk; // nesting, strings, numbers and gaps longer than any small counter
  unsigned k = vf_param("k", 300); std::string t(vf_choose(2, "gap") ? k : 1, ' '); unsigned from = t.size(), w = vf_choose(4, "what"); char c = vf_any<char>("c"); vf_assume(c >= 'a' && c <= 'z');
  if (w == 0) { std::string o, e; for (unsigned i = 0; i < k; ++i) { o += i % 3 ? '[' : '{'; e.insert(e.begin(), i % 3 ? ']' : '}'); } t += o + c + e; }
  else if (w == 1) t += '[' + std::string("\"") + std::string(k, c) + "\"]"; else if (w == 2) t += '{' + std::string(k, '4') + '}'; else for (unsigned i = 0, n = k; i <= n; ++i) t += i == 0 ? "{" : i == n ? "}" : i % 2 ? "[]" : "{}";
  skipTo(t, from, t.size() - 1, true); t.pop_back(); skipTo(t, from, 0, false); vf_reach("deep");
}
template <class T> static void intText(long lo, long hi) {
  std::string t = anyText(vf_param("n", 4)); T v; bool ok = run(t, v); Lz k(t); long x;
  if (ok) vf_observe((uint64_t)(int64_t)v);
  if (!k.single()) { vf_check(!ok, "a number is a single scalar"); return; }
  if (rInt(t.data(), k.tk(0), x, 12) && (lo < 0 || t[rB(k.tk(0))] != '-')) { ACC(ok == (x >= lo && x <= hi), "decimal integers in range are accepted"); VAL(!ok || (x >= lo && x <= hi), "a number out of range is not read as some other value"); if (ok) { VAL((long)v == x, "value of an integer"); vf_reach("number"); } return; }
  // nothing that starts with neither a digit nor a sign is a number
  unsigned b = rB(k.tk(0)), e = rE(k.tk(0)); while (b < e && rSpace(t[b])) ++b; if (b < e && t[b] != '\\' && t[b] != '+' && t[b] != '-' && !rDigit(t[b])) { vf_check(!ok, "not a number"); vf_reach("word"); } if (b == e) vf_check(!ok, "no digits");
}
VF_ENTRY(json_int_text) { Leak lk; intText<int>(-2147483648l, 2147483647l); }
VF_ENTRY(json_unsigned_text) { Leak lk; intText<unsigned>(0, 4294967295l); }
VF_ENTRY(json_long_text) { Leak lk; if (vf_bool("ll")) intText<long long>(-(1l << 62), 1l << 62); else intText<long>(-(1l << 62), 1l << 62); }
VF_ENTRY(json_ulong_text) { Leak lk; if (vf_bool("ll")) intText<unsigned long long>(0, 1l << 62); else intText<unsigned long>(0, 1l << 62); }
// long runs of digits around the limits of the type
template <class T> static void limits(const char *max, const char *over, const char *min, const char *under) {
  char b[24]; unsigned w = vf_choose(min ? 4 : 2, "limit"); const char *s = w == 0 ? max : w == 1 ? over : w == 2 ? min : under; unsigned n = strlen(s); memcpy(b, s, n); 
  char d; vf_sym(&d, 1, "digit"); vf_assume_((d >= '0') & (d <= '9')); char o = b[n - 1]; b[n - 1] = d; std::string t(b, n); if (vf_bool("quoted")) t = '"' + t + '"'; T v; bool ok = run(t, v);
  // texts are the limit itself or the first value beyond with the last digit replaced; beyond has the larger last digit
  bool in = w % 2 == 0 ? d <= o : d < o; ACC(ok == in, "a number is accepted exactly when it is representable"); VAL(!ok || in, "a number out of range is not read as some other value"); if (ok && d == o) VAL(std::to_string(v) == t || t[0] == '"', "the limit itself"); vf_reach("limit");
}
VF_ENTRY(json_limits) { Leak lk;
  switch (vf_choose(6, "type")) {
  case 0: limits<int>("2147483647", "2147483648", "-2147483648", "-2147483649"); break;
  case 1: limits<unsigned>("4294967295", "4294967296", nullptr, nullptr); break;
  case 2: limits<long>("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"); break;
  case 3: limits<long long>("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"); break;
  case 4: limits<unsigned long>("18446744073709551615", "18446744073709551616", nullptr, nullptr); break;
  case 5: limits<unsigned long long>("18446744073709551615", "18446744073709551616", nullptr, nullptr); break;
  }
}
VF_ENTRY(json_bool_text) { Leak lk;
  std::string t = anyText(vf_param("n", 5)); bool v; bool ok = run(t, v); Lz k(t); if (!k.single()) { vf_check(!ok, "a boolean is a single scalar"); return; }
  std::string s; if (!rText(t.data(), k.tk(0), s)) return; bool tr = s == "true", fa = s == "false"; vf_check(ok == (tr || fa), "booleans only"); if (ok) { VAL(v == tr, "value of a boolean"); vf_reach(tr ? "true" : "false"); }
}
VF_ENTRY(json_bool_quoted) { Leak lk; // room for quotes and spaces around keywords
  const char *w[] = {"true", "false", "null"}; unsigned x = vf_choose(3, "word"); std::string t = w[x]; char c[2]; vf_sym(c, 2, "around"); unsigned at = vf_choose(4, "where"); if (at == 0) t = std::string(c, 1) + t + std::string(c + 1, 1); else if (at == 1) t += std::string(c, 2); else if (at == 2) t.insert(2, c, 1); else t[1] = c[0];
  bool v; bool ok = run(t, v); Lz k(t); if (!k.single()) { vf_check(!ok, "a boolean is a single scalar"); return; }
  std::string s; if (!rText(t.data(), k.tk(0), s)) return; bool tr = s == "true", fa = s == "false"; vf_check(ok == (tr || fa), "booleans only"); if (ok) { VAL(v == tr, "value of a boolean"); vf_reach("word"); }
}
VF_ENTRY(json_char_text) { Leak lk;
  std::string t = anyText(vf_param("n", 4)); char v; bool ok = run(t, v); Lz k(t); if (!k.single()) { vf_check(!ok, "a character is a single scalar"); return; }
  std::string s; if (!rText(t.data(), k.tk(0), s)) return; ACC(ok == (s.size() == 1), "single characters only"); if (ok) { VAL(v == s[0], "value of a character"); vf_reach("char"); }
}
VF_ENTRY(json_string_text) { Leak lk;
  std::string t = anyText(vf_param("n", 4)); std::string v = "old"; bool ok = run(t, v); Lz k(t); if (!k.single()) { ACC(!ok, "a string is a single scalar"); return; }
  ACC(ok, "every scalar is a string"); std::string s; if (rText(t.data(), k.tk(0), s)) { VAL(v == s, "value of a string"); vf_reach("plain"); }
  else { // escape sequences: at most one character of the value per character of the text
    VAL(v.size() < rE(k.tk(0)) - rB(k.tk(0)), "escape sequences are shortened"); vf_reach("escaped"); }
}
VF_ENTRY(json_cstring_text) { Leak lk;
  std::string t = anyText(vf_param("n", 4)); char *v = nullptr; bool ok = run(t, v); Lz k(t);
  if (k.single()) { ACC(ok && v, "every scalar is a string"); std::string s; if (rText(t.data(), k.tk(0), s)) { for (unsigned i = 0; i <= s.size(); ++i) VAL(v[i] == (i < s.size() ? s[i] : '\0'), "value of a string"); vf_reach("plain"); } delete[] v; return; }
  Items it = rItems(k); if (!it.wf) { ACC(!ok, "neither a scalar nor an array"); delete[] v; return; }
  if (!ok) { delete[] v; return; }
  if (!it.n) { VAL(!v, "empty array"); return; }
  for (unsigned i = 0; i < it.n; ++i) vf_observe(v[i]); if (!it.obj) { std::string s; for (unsigned i = 0; i < it.n; ++i) if (rText(t.data(), it.val[i], s)) VAL(s.size() == 1 && v[i] == s[0], "characters of an array"); vf_reach("array"); }
  delete[] v;
}
// arrays and associative containers of integers: an exact decision for plain numbers
static bool v_(int *p) { return p != nullptr; } template <class V> static bool v_(V &) { return false; }
static bool z0(Lz &k) { return k.k(0) == '[' || k.k(0) == '{'; }
template <class V, class Get, class Drop> static void listText(Get get, Drop drop, bool objs, bool scalars = false) {
  std::string t = anyText(vf_param("n", 5)); V v{}; bool ok = run(t, v); Lz k(t); Items it = rItems(k);
  if (!it.wf || (it.obj && !objs)) { if (scalars && k.single()) { long x; if (rInt(t.data(), k.tk(0), x)) { VAL(ok && (long)get(v, 0, 1) == x, "single value"); } if (ok || v_(v)) drop(v, false); return; } ACC(!ok, "malformed arrays are refused"); if (v_(v)) drop(v, z0(k)); return; }
  bool plain = true, dup = false, gap = false; long key[8], val[8]; for (unsigned i = 0; i < it.n; ++i) { plain = plain && rInt(t.data(), it.val[i], val[i]); if (it.obj) plain = plain && rInt(t.data(), it.key[i], key[i]) && t[it.key[i].s + 1] != '-'; else key[i] = i; }
  if (plain) { for (unsigned i = 0; i < it.n; ++i) { if (key[i] >= (long)it.n) gap = true; for (unsigned j = 0; j < i; ++j) dup |= key[i] == key[j]; }
    ACC(ok == !(dup || gap), "arrays with all elements are accepted"); if (ok) { for (unsigned i = 0; i < it.n; ++i) VAL((long)get(v, key[i], it.n) == val[i], "elements of an array"); vf_reach(it.obj ? "object" : it.n ? "array" : "empty"); } else vf_reach("refused"); }
  if (ok || v_(v)) drop(v, z0(k));
}
VF_ENTRY(json_vector_text) { Leak lk; listText<std::vector<int>>([](std::vector<int> &v, size_t i, size_t n) { VAL(v.size() == n, "size of a vector"); return v[i]; }, [](std::vector<int> &v, bool) { for (int x : v) vf_observe((unsigned)x); }, true); }
VF_ENTRY(json_pointer_text) { Leak lk; listText<int *>([](int *v, size_t i, size_t) { return v[i]; }, [](int *v, bool arr) { if (arr) delete[] v; else delete v; }, true, true); }
VF_ENTRY(json_vector_keys) { Leak lk; // {"k":1,"k":2} with arbitrary keys
  unsigned n = 1 + vf_choose(vf_param("keys", 2), "count"), len = vf_param("len", 1); std::string t = "{"; char kb[4][3]; for (unsigned i = 0; i < n; ++i) { vf_sym(kb[i], len, "key"); t += i ? ",\"" : "\""; t.append(kb[i], len); t += "\":"; t += (char)('5' + i); } t += "}";
  unsigned kind = vf_choose(3, "kind"); std::vector<int> v; int *pi = nullptr; char *pc = nullptr; bool ok = kind == 0 ? run(t, v) : kind == 1 ? run(t, pi) : run(t, pc); Lz k(t); Items it = rItems(k); if (!it.wf) { ACC(!ok, "malformed objects are refused"); delete[] pi; delete[] pc; return; }
  if (ok) { if (kind == 0) VAL(v.size() == it.n, "number of elements"); else { ACC(kind == 1 ? pi != nullptr : pc != nullptr, "an array is created"); v.resize(it.n); for (unsigned i = 0; i < it.n; ++i) v[i] = kind == 1 ? pi[i] : pc[i] - '0'; } for (int x : v) vf_observe((unsigned)x); delete[] pi; delete[] pc; }
  bool plain = true, good = true; long key[4], x; for (unsigned i = 0; i < it.n; ++i) { plain = plain && it.key[i].e - it.key[i].s > 2 && t[it.key[i].s + 1] != '-' && rInt(t.data(), it.key[i], key[i]); }
  if (plain) { for (unsigned i = 0; i < it.n; ++i) { good = good && key[i] < (long)it.n; for (unsigned j = 0; j < i; ++j) good = good && key[i] != key[j]; } ACC(ok == good, "all indexes of an array, each once"); if (ok) { for (unsigned i = 0; i < it.n; ++i) if (rInt(t.data(), it.val[i], x)) VAL(v[key[i]] == x, "an element is found at its index"); vf_reach("indexed"); } else vf_reach("refused"); }
}
VF_ENTRY(json_set_text) { Leak lk;
  std::string t = anyText(vf_param("n", 5)); std::set<int> v; bool ok = run(t, v); Lz k(t); Items it = rItems(k); if (!it.wf || it.obj) { ACC(!ok, "malformed arrays are refused"); return; }
  bool plain = true, dup = false; long val[8]; for (unsigned i = 0; i < it.n; ++i) plain = plain && rInt(t.data(), it.val[i], val[i]); if (!plain) return; for (unsigned i = 0; i < it.n; ++i) for (unsigned j = 0; j < i; ++j) dup |= val[i] == val[j];
  ACC(ok == !dup, "sets refuse duplicates only"); if (ok) { VAL(v.size() == it.n, "size of a set"); for (unsigned i = 0; i < it.n; ++i) VAL(v.count((int)val[i]) == 1, "elements of a set"); vf_reach("set"); } else vf_reach("dup");
}
template <class M, bool Multi> static void mapText(std::string t) {
  M v; bool ok = run(t, v); Lz k(t); Items it = rItems(k); if (!it.wf) { ACC(!ok, "malformed objects are refused"); return; }
  if (!it.obj && it.n) { vf_observe(ok); return; }
  bool plain = true, dup = false; long key[8], val[8]; for (unsigned i = 0; i < it.n; ++i) plain = plain && rInt(t.data(), it.key[i], key[i]) && rInt(t.data(), it.val[i], val[i]); if (!plain) { if (ok) for (auto &p : v) { vf_observe((unsigned)p.first); vf_observe((unsigned)p.second); } return; }
  for (unsigned i = 0; i < it.n; ++i) for (unsigned j = 0; j < i; ++j) dup |= key[i] == key[j];
  ACC(ok == (Multi || !dup), "maps refuse duplicates only"); if (!ok) { vf_reach("dup"); return; } VAL(v.size() == it.n, "size of a map");
  unsigned i = 0; for (auto &p : v) { bool f = false; for (unsigned j = 0; j < it.n; ++j) f |= key[j] == p.first && val[j] == p.second; VAL(f, "pairs of a map"); ++i; } for (unsigned j = 0; j < it.n; ++j) VAL(v.count((int)key[j]) >= 1 && (Multi || v.find((int)key[j])->second == val[j]), "pairs of a map"); vf_reach(it.n ? "map" : "empty");
}
VF_ENTRY(json_map_text) { Leak lk; mapText<std::map<int, int>, false>(anyText(vf_param("n", 5))); }
VF_ENTRY(json_multimap_text) { Leak lk; mapText<std::multimap<int, int>, true>(anyText(vf_param("n", 5))); }
VF_ENTRY(json_map_holes) { Leak lk; // two pairs with two arbitrary bytes anywhere
  std::string t = "{\"1\":2,\"3\":4}"; unsigned p = vf_choose(t.size(), "first"); char c[2]; vf_sym(c, 2, "bytes"); t[p] = c[0]; if (vf_param("two", 1)) { unsigned q = vf_choose(t.size(), "second"); t[q] = c[1]; }
  if (vf_bool("multi")) mapText<std::multimap<int, int>, true>(t); else mapText<std::map<int, int>, false>(t);
}
VF_ENTRY(json_optional_text) { Leak lk;
  std::string t = anyText(vf_param("n", 5)); std::optional<int> v = 77; bool ok = run(t, v); Lz k(t); if (!k.single()) { ACC(!ok, "a single scalar"); return; }
  std::string s; long x; if (rInt(t.data(), k.tk(0), x)) { VAL(ok && v && *v == x, "a value is stored"); vf_reach("value"); } else if (rText(t.data(), k.tk(0), s) && s == "null") { ACC(ok && !v, "no value"); vf_reach("none"); } else if (ok) { VAL(v.has_value(), "a value"); vf_observe((unsigned)*v); }
}
VF_ENTRY(json_nested_text) { Leak lk; // [[..],..] within a vector, and a map of vectors
  std::string t = anyText(vf_param("n", 6)); std::vector<std::vector<int>> v; bool ok = run(t, v); Lz k(t); unsigned e = rValue(k, 0); if (!e || !k.last(e - 1)) ACC(!ok, "malformed text is refused"); else if (ok) { vf_observe(v.size()); for (auto &x : v) { vf_observe(x.size()); for (int y : x) vf_observe((unsigned)y); } vf_reach("nested"); }
}
// ---- writing and reading back ----------------------------------------------
template <class T> static std::string write(const T &v) { return json::Parser<>::unparse(v); }
template <class T> static void back(const std::string &t, T &v) { json::Parser<> p(t); bool ok = p.parse(v); vf_check(ok && !p.hasErrors(), "written text is read back"); }
static void oneString(const std::string &t) {
  Lz z(t); vf_check(z.k(0) == 's' && z.last(0) && z.tk(0).s == 0 && z.tk(0).e == t.size(), "the written form is one string token");
  for (char c : t) vf_check((c != '\n') & (c != '\r') & (c != '\t') & (c != '\v') & (c != '\f'), "control characters are written as escape sequences");
}
static std::string bytes(unsigned max, const char *nm, bool nul = true) { unsigned n = vf_choose(max + 1, "size"); char b[16]; vf_sym(b, n, nm); if (!nul) for (unsigned i = 0; i < n; ++i) vf_assume(b[i] != 0); return std::string(b, n); }
VF_ENTRY(json_string_back) { Leak lk; std::string s = bytes(vf_param("n", 4), "bytes"), v = "old"; std::string t = write(s); oneString(t); back(t, v); vf_check(v == s, "a string is read back"); vf_observe(t.size()); vf_reach("string");
  json::Lexer l(t); vf_check(l.goToNext() && l.is(json::Token::IDENTIFIER) && l.next() == t.size(), "one token"); }
VF_ENTRY(json_string_prefix) { Leak lk; // writing appends to the text which is there
  std::string s = bytes(vf_param("n", 3), "bytes"), p = bytes(2, "prefix"), t = p; if (vf_bool("c")) { std::string u; for (char c : s) { vf_assume(c != 0); } json::Traits<char *>::unparse(t, s.c_str()); } else json::Traits<std::string>::unparse(t, s);
  vf_check(t.size() >= p.size() && t.compare(0, p.size(), p) == 0, "text in front of a string is kept"); vf_check(t.substr(p.size()) == write(s), "the same text is appended"); vf_reach("prefix"); }
VF_ENTRY(json_cstring_back) { Leak lk; std::string s = bytes(vf_param("n", 4), "bytes", false); char *o = const_cast<char *>(s.c_str()); std::string t = write((const char *)o); vf_check(t == write(s), "both kinds of strings are written in the same way"); oneString(t);
  bool c = vf_bool("const"); const char *cv = nullptr; char *v = nullptr; if (c) back(t, cv); else { back(t, v); cv = v; } vf_check(cv && s == cv, "a string is read back"); delete[] cv; vf_reach("string"); }
VF_ENTRY(json_string_long) { Leak lk; // strings which do not fit in short buffers, symbolic characters at both ends and inside
  static const unsigned L[] = {13, 14, 15, 16, 30, 31, 63, 127, 255, 300}; unsigned n = L[vf_choose(vf_param("k", 10), "length")]; static const char F[] = {'x', '"', '\n'}; std::string s(n, F[vf_choose(3, "fill")]); unsigned at[] = {0, n / 2, n - 1}; for (unsigned i : at) s[i] = vf_any<char>("c");
  std::string v = "old", t = write(s); oneString(t); back(t, v); vf_check(v == s, "a string is read back"); for (unsigned i : at) vf_assume(s[i] != 0); vf_check(write(s.c_str()) == t, "both kinds of strings are written in the same way"); char *o = nullptr; back(t, o); vf_check(o && s == o, "a string is read back"); delete[] o; vf_reach("long"); }
VF_ENTRY(json_strings_back) { Leak lk; // next to each other
  unsigned n = vf_param("n", 2); std::string a = bytes(n, "a"), b = bytes(n, "b");
  switch (vf_choose(4, "container")) {
  case 0: { std::vector<std::string> v{a, b}, r; std::string t = write(v); back(t, r); vf_check(r.size() == 2 && r[0] == a && r[1] == b, "strings are read back"); vf_reach("vector"); break; }
  case 1: { std::map<std::string, std::string> m, r; m[a] = b; std::string t = write(m); back(t, r); vf_check(r.size() == 1 && r.begin()->first == a && r.begin()->second == b, "strings are read back"); vf_reach("map"); break; }
  case 2: { std::optional<std::string> o = a, r; back(write(o), r); vf_check(r && *r == a, "a string is read back"); vf_reach("optional"); break; }
  case 3: { std::set<std::string> s, r; s.insert(a); s.insert(b); back(write(s), r); vf_check(r == s, "strings are read back"); vf_reach("set"); break; }
  }
}
// scalars
static long band(unsigned k, long lo, long hi) { // both ends of a type and the values around zero
  long d = vf_in<uint8_t>(0, (uint8_t)vf_param("w", 255), "d"); switch (k) { case 0: return d; case 1: return hi - d; case 2: return lo + d; default: return lo < 0 ? -d : d + 32700; } }
template <class T> static void scalarBack(T x) { std::string t = write(x); T v = T(42); back(t, v); vf_check(v == x, "a number is read back"); std::string u = '"' + t + '"'; T w = T(41); back(u, w); vf_check(w == x, "a quoted number is read back"); vf_reach("number"); vf_observe(t.size()); }
VF_ENTRY(json_scalars_back) { Leak lk;
  unsigned k = vf_choose(4, "band");
  switch (vf_choose(8, "type")) {
  case 0: scalarBack<int>((int)band(k, INT32_MIN, INT32_MAX)); break;
  case 1: scalarBack<unsigned>((unsigned)band(k, 0, UINT32_MAX)); break;
  case 2: scalarBack<long>(band(k, INT64_MIN, INT64_MAX)); break;
  case 3: scalarBack<long long>(band(k, INT64_MIN, INT64_MAX)); break;
  case 4: scalarBack<unsigned long>((unsigned long)band(k, 0, -1)); break;
  case 5: scalarBack<unsigned long long>((unsigned long long)band(k, 0, -1)); break;
  case 6: { bool b = vf_bool("flag"); std::string t = write(b); vf_check(t == (b ? "true" : "false"), "keywords of booleans"); bool v = !b; back(t, v); vf_check(v == b, "a boolean is read back"); bool w = !b; back('"' + t + '"', w); vf_check(w == b, "a quoted boolean is read back"); break; }
  case 7: { char c = vf_any<char>("char"); std::string t = write(c); oneString(t); char v = (char)(c + 1); back(t, v); vf_check(v == c, "a character is read back"); break; }
  }
}
VF_ENTRY(json_short_back) { Leak lk; int x = vf_any<uint16_t>("x"); scalarBack<int>(vf_bool("negative") ? -x : x); }
// floating-point numbers: every normal value and zero
template <class T, class B> static T fp(B bits) { T x; memcpy(&x, &bits, sizeof x); return x; }
template <class T, class B> static void floatBack(B bits, unsigned exp) {
  B e = bits >> exp & ((B)~(B)0 >> (exp + 1)), top = (B)~(B)0 >> (exp + 1); vf_assume_((e != top) & ((e != 0) | (B)(bits << 1) == 0)); T x = fp<T>(bits), v = 1; B r;
  std::string t = write(x); back(t, v); memcpy(&r, &v, sizeof r); vf_check(r == bits, "a floating-point number is read back"); v = 1; back('"' + t + '"', v); memcpy(&r, &v, sizeof r); vf_check(r == bits, "a quoted floating-point number is read back");
}
VF_ENTRY(json_float_back) { Leak lk;
  if (vf_bool("double")) { floatBack<double>(vf_any<uint64_t>("bits"), 52); vf_reach("double"); } else { floatBack<float>(vf_any<uint32_t>("bits"), 23); vf_reach("float"); } }
VF_ENTRY(json_float_list) { Leak lk; // next to other values
  uint64_t b = vf_any<uint64_t>("bits"), e = b >> 52 & 2047; vf_assume_((e != 2047) & (e != 0)); double x = fp<double>(b);
  if (vf_bool("map")) { std::map<int, double> m{{3, x}, {4, 0.5}}, r; back(write(m), r); vf_check(r.size() == 2, "all numbers are read back"); uint64_t q; memcpy(&q, &r[3], 8); vf_check(q == b && r[4] == 0.5, "numbers are read back"); vf_reach("map"); }
  else { std::vector<double> v{0.5, x, 2}, r; back(write(v), r); vf_check(r.size() == 3, "all numbers are read back"); uint64_t q; memcpy(&q, &r[1], 8); vf_check(q == b && r[0] == 0.5 && r[2] == 2, "numbers are read back"); vf_reach("vector"); }
}
template <class T> static void floatText(bool dbl) {
  int a = (int)vf_fix(vf_in<uint8_t>(0, 9, "a")); T want = 0; std::string t, z; bool ok = true, quote = vf_bool("quote"); char A = (char)('0' + a); T v = 1;
  switch (vf_choose(13, "text")) {
  case 0: t = A; want = a; break;
  case 1: t = std::string("-") + A + ".5"; want = -(a + T(0.5)); break;
  case 2: t = std::string("12") + A + ".25"; want = 120 + a + T(0.25); break;
  case 3: t = std::string("+") + A + "."; want = a; break;
  case 4: t = std::string("0.") + A; want = (T)(a / 10.0); break;
  case 5: t = std::string("1677721") + A; want = (T)(16777210 + a); break; // floats step by two there
  case 6: t = std::string("900719925474099") + A; want = (T)(9007199254740990 + a); break;
  case 7: t = std::string("0.000") + A + "1"; want = (T)((10 * a + 1) / 100000.0); break;
  case 8: t = A + std::string(dbl ? 310 : 39, '1'); ok = false; if (!a) vf_end_path(); break; // out of range
  case 9: t = (char)('a' + a); ok = false; break;
  case 10: t = "-"; ok = false; break;
  case 11: t = std::string(1, A) + std::string(dbl ? 307 : 37, '0') + ".0"; ok = true; if (a > 1) vf_end_path(); if (a) want = dbl ? (T)1e307 : (T)1e37f; break;
  case 12: t = "-0.0"; want = -T(0); break;
  }
  if (quote) t = '"' + t + '"'; bool r = run(t, v);
  if (!ok) { ACC(!r, "no such number"); VAL(!r, "a text which denotes no number of this type is not read as some value"); vf_reach("refused"); return; }
  ACC(r, "a number in range"); if (r) { VAL(v == want && !memcmp(&v, &want, sizeof v), "value of a floating-point number"); vf_reach(dbl ? "double" : "float"); }
}
VF_ENTRY(json_float_text) { Leak lk; if (vf_bool("double")) floatText<double>(true); else floatText<float>(false); }
// containers
static int elem(const char *nm) { int m = vf_in<uint8_t>(0, (uint8_t)vf_param("hi", 12), nm); return vf_param("neg", 0) && vf_bool("negative") ? -m - 1 : m; }
VF_ENTRY(json_list_back) { Leak lk;
  unsigned n = vf_choose(vf_param("n", 3) + 1, "size"); int e[4]; for (unsigned i = 0; i < n; ++i) e[i] = elem("e");
  switch (vf_choose(4, "container")) {
  case 0: { std::vector<int> v(e, e + n), r{7, 7, 7, 7, 7}; back(write(v), r); vf_check(r == v, "a vector is read back"); vf_reach("vector"); break; }
  case 1: { std::set<int> v(e, e + n), r; back(write(v), r); vf_check(r == v, "a set is read back"); vf_reach("set"); break; }
  case 2: { std::vector<unsigned> v(n), r; for (unsigned i = 0; i < n; ++i) v[i] = (unsigned)e[i] & 15; back(write(v), r); vf_check(r == v, "a vector is read back"); break; }
  case 3: { std::vector<int> v(e, e + n); int *p = nullptr; back(write(v), p); if (n) { for (unsigned i = 0; i < n; ++i) vf_check(p[i] == e[i], "elements of an array"); } else vf_check(!p, "no array"); delete[] p; vf_reach("array"); break; }
  }
}
VF_ENTRY(json_list_long) { Leak lk; // more elements and longer indexes than small counters and buffers can hold
  static const unsigned N[] = {11, 17, 101, 129, 257, 300}; unsigned n = N[vf_choose(vf_param("k", 6), "size")]; int e[3]; for (int &x : e) x = (int)vf_in<uint8_t>(0, 9, "e"); auto at = [&](unsigned i) { return i == 0 ? e[0] : i == n / 2 ? e[1] : i == n - 1 ? e[2] : (int)(i * 13 % 1000) - 300; };
  unsigned what = vf_param("what", 7); switch (what == 7 ? vf_choose(7, "container") : what) {
  case 0: { std::vector<int> v, r{7}; for (unsigned i = 0; i < n; ++i) v.push_back(at(i)); back(write(v), r); vf_check(r == v, "a vector is read back"); vf_reach("vector"); break; }
  case 1: { std::set<int> v, r; for (unsigned i = 0; i < n; ++i) v.insert(i == 0 && n < 100 ? -5 - e[0] : (int)i * 3); back(write(v), r); vf_check(r == v, "a set is read back"); vf_reach("set"); break; }
  case 2: { std::map<int, int> v, r; for (unsigned i = 0; i < n; ++i) v[(int)i * 7 - 100] = at(i); back(write(v), r); vf_check(r == v, "a map is read back"); vf_reach("map"); break; }
  case 3: { std::string t = "{"; bool down = vf_bool("down"); for (unsigned k = 0; k < n; ++k) { unsigned i = down ? n - 1 - k : (k * 7 + 3) % n; if (!down && n % 7 == 0) vf_end_path(); if (k) t += ','; t += '"' + std::to_string(i) + "\":" + std::to_string(at(i)); } t += '}';
    if (vf_bool("pointer")) { int *p = nullptr; back(t, p); for (unsigned i = 0; i < n; ++i) vf_check(p[i] == at(i), "elements of an array"); delete[] p; } else { std::vector<int> r; back(t, r); vf_check(r.size() == n, "number of elements"); for (unsigned i = 0; i < n; ++i) vf_check(r[i] == at(i), "elements of a vector"); } vf_reach("indexed"); break; }
  case 4: { std::vector<int> v; for (unsigned i = 0; i < n; ++i) v.push_back(at(i)); int *p = nullptr; back(write(v), p); for (unsigned i = 0; i < n; ++i) vf_check(p[i] == at(i), "elements of an array"); delete[] p; vf_reach("array"); break; }
  case 5: { std::multimap<int, std::string> v, r; for (unsigned i = 0; i < n; ++i) v.emplace((int)i / 3, std::string(1, (char)('a' + (at(i) + 300) % 26))); back(write(v), r); vf_check(r == v, "a multimap is read back"); vf_reach("multimap"); break; }
  case 6: { std::vector<std::vector<int>> v(n), r; for (unsigned i = 0; i < n; ++i) if (i % 3) v[i].assign(1 + i % 2, at(i)); back(write(v), r); vf_check(r == v, "nested vectors are read back"); vf_reach("nested"); break; }
  }
}
VF_ENTRY(json_map_back) { Leak lk;
  unsigned n = vf_choose(vf_param("n", 2) + 1, "size"); int k[4], e[4]; for (unsigned i = 0; i < n; ++i) { k[i] = elem("k"); e[i] = elem("e"); }
  switch (vf_choose(3, "container")) {
  case 0: { std::map<int, int> v, r; for (unsigned i = 0; i < n; ++i) v[k[i]] = e[i]; back(write(v), r); vf_check(r == v, "a map is read back"); vf_reach("map"); break; }
  case 1: { std::multimap<int, int> v, r; for (unsigned i = 0; i < n; ++i) v.emplace(k[i], e[i]); back(write(v), r); vf_check(r == v, "a multimap is read back"); vf_reach("multimap"); break; }
  case 2: { std::map<int, std::vector<int>> v, r; for (unsigned i = 0; i < n; ++i) v[k[i]].push_back(e[i]); back(write(v), r); vf_check(r == v, "a map of vectors is read back"); vf_reach("nested"); break; }
  }
}
VF_ENTRY(json_optional_back) { Leak lk;
  switch (vf_choose(5, "container")) {
  case 0: { std::optional<int> v, r = 5; bool h = vf_bool("has"); if (h) v = elem("e"); back(write(v), r); vf_check(r == v, "an optional number is read back"); vf_reach("optional"); break; }
  case 1: { std::vector<std::optional<int>> v(2), r; for (auto &o : v) if (vf_bool("has")) o = elem("e"); back(write(v), r); vf_check(r == v, "optional elements are read back"); vf_reach("elements"); break; }
  case 2: { std::optional<std::vector<int>> v, r; if (vf_bool("has")) v = std::vector<int>{elem("e"), elem("e")}; else r = std::vector<int>{1}; back(write(v), r); vf_check(r == v, "an optional vector is read back"); vf_reach("vector"); break; }
  case 3: { std::optional<std::string> v, r = std::string("x"); switch (vf_choose(3, "text")) { case 0: break; case 1: v = "null"; break; case 2: { char c[1]; vf_sym(c, 1, "c"); v = std::string(c, 1); break; } } back(write(v), r); vf_check(r == v, "an optional string is read back"); vf_reach("string"); break; }
  case 4: { std::map<int, std::optional<bool>> v, r; for (int i = 0; i < 2; ++i) if (vf_bool("there")) { auto &o = v[i]; if (vf_bool("has")) o = vf_bool("flag"); } back(write(v), r); vf_check(r == v, "optional values of a map are read back"); break; }
  }
}
VF_ENTRY(json_nested_back) { Leak lk;
  std::vector<std::vector<int>> v, r; unsigned n = vf_choose(4, "outer"); v.resize(n); for (auto &x : v) { unsigned m = vf_choose(3, "inner"); for (unsigned i = 0; i < m; ++i) x.push_back(elem("e")); } back(write(v), r); vf_check(r == v, "nested vectors are read back"); vf_reach("nested");
}
template <class T> static void same(const T &v, T r) { back(write(v), r); vf_check(r == v, "a container is read back"); }
VF_ENTRY(json_mixed_back) { Leak lk; // containers of other containers and of other scalars
  typedef std::vector<int> V; typedef std::map<int, int> M; int a = elem("a"), b = elem("b"); char c, d; vf_sym(&c, 1, "c"); vf_sym(&d, 1, "d"); std::string s(vf_choose(3, "length"), c); bool f = vf_bool("f"), full = vf_bool("full");
  switch (vf_choose(14, "type")) {
  case 0: { std::set<V> v{V{a, b}, V{b}}; if (f) v.insert(V()); same(v, full ? std::set<V>{V{7}} : std::set<V>()); break; }
  case 1: same(std::set<char>{c, d}, full ? std::set<char>{'x'} : std::set<char>()); break;
  case 2: same(f ? std::set<bool>{true, false} : std::set<bool>{full}, std::set<bool>()); break;
  case 3: same(std::set<std::string>{s, std::string(1, d)}, std::set<std::string>()); break;
  case 4: { std::map<char, int> v; v[c] = a; v[d] = b; std::map<char, int> r; if (full) r['x'] = 1; same(v, r); break; }
  case 5: { std::map<bool, int> v; v[f] = a; if (full) v[!f] = b; same(v, std::map<bool, int>()); break; }
  case 6: same(std::vector<char>{c, d}, std::vector<char>(full ? 3 : 0)); break;
  case 7: { std::map<int, M> v; v[3][a] = b; if (f) v[4]; same(v, std::map<int, M>()); break; }
  case 8: { std::vector<M> v(2); v[f][a] = b; same(v, std::vector<M>(full ? 3 : 0)); break; }
  case 9: { std::multimap<std::string, bool> v; v.emplace(s, f); v.emplace(s, !f); if (full) v.emplace("k", f); same(v, std::multimap<std::string, bool>()); break; }
  case 10: { std::map<std::string, std::vector<std::string>> v; v[s] = {std::string(1, d)}; if (full) v["k"]; same(v, std::map<std::string, std::vector<std::string>>()); break; }
  case 11: { std::optional<std::vector<std::optional<int>>> v; if (full) { v.emplace(2); (*v)[f] = a; } same(v, std::optional<std::vector<std::optional<int>>>()); break; }
  case 12: { std::set<std::optional<int>> v{std::optional<int>(a)}; if (f) v.insert(std::nullopt); same(v, std::set<std::optional<int>>()); break; }
  case 13: { std::vector<std::vector<std::string>> v(2); v[f] = {s, std::string(1, d)}; same(v, std::vector<std::vector<std::string>>(full ? 3 : 0)); break; }
  } vf_reach("mixed");
}
VF_ENTRY(json_sparse_back) { Leak lk; // pointers without a value are left out
  unsigned n = 1 + vf_choose(3, "size"), live = 0; std::vector<int *> v(n); int e[3]; for (unsigned i = 0; i < n; ++i) if (vf_bool("has")) { e[i] = elem("e"); v[i] = &e[i]; ++live; }
  std::string t = write(v); if (live) { std::map<unsigned, int> r; if (live < n) { back(t, r); vf_check(r.size() == live, "present elements only"); for (unsigned i = 0; i < n; ++i) vf_check(r.count(i) == (v[i] != nullptr) && (!v[i] || r[i] == e[i]), "elements are written with their indexes"); std::vector<int> w; json::Parser<> p(t); if (p.parse(w)) { vf_check(w.size() == live, "leading elements"); for (unsigned i = 0; i < live; ++i) vf_check(v[i] && w[i] == e[i], "leading elements only"); } else vf_check(p.hasErrors(), "missing elements are reported"); vf_reach("sparse"); } else { std::vector<int> w; back(t, w); for (unsigned i = 0; i < n; ++i) vf_check(w.size() == n && w[i] == e[i], "elements"); vf_reach("dense"); } }
  else { std::vector<int> w{1}; back(t, w); vf_check(w.empty(), "nothing is written"); vf_reach("none"); }
}
// keys and values which are written as no text are left out
static unsigned pointers(int *e, int **p, unsigned n) { unsigned live = 0; for (unsigned i = 0; i < n; ++i) { p[i] = nullptr; if (vf_bool("has")) { e[i] = elem("e"); p[i] = &e[i]; ++live; } } return live; }
VF_ENTRY(json_sparse_more) { Leak lk;
  unsigned n = vf_choose(4, "size"); int e[3]; int *p[3]; unsigned live = pointers(e, p, n);
  switch (vf_choose(4, "what")) {
  case 0: { std::set<int *> v(p, p + n); std::vector<int> r; back(write(v), r); vf_check(r.size() == live, "present keys of a set only"); unsigned j = 0; for (unsigned i = 0; i < n; ++i) if (p[i]) { vf_check(r[j] == e[i], "keys of a set"); ++j; } vf_reach("set"); break; }
  case 1: { std::map<int, int *> v; for (unsigned i = 0; i < n; ++i) v[i] = p[i]; std::map<int, int> r; back(write(v), r); vf_check(r.size() == live, "present values of a map only"); for (unsigned i = 0; i < n; ++i) vf_check(r.count(i) == (p[i] != nullptr) && (!p[i] || r[i] == e[i]), "values of a map"); vf_reach("map"); break; }
  case 2: { std::multimap<int, int *> v; for (unsigned i = 0; i < n; ++i) v.emplace(7, p[i]); std::multimap<int, int> r; back(write(v), r); vf_check(r.size() == live, "present values of a multimap only"); auto j = r.begin(); for (unsigned i = 0; i < n; ++i) if (p[i]) { vf_check(j != r.end() && j->first == 7 && j->second == e[i], "values of a multimap"); ++j; } vf_reach("multimap"); break; }
  case 3: { std::vector<std::set<int *>> v(2, std::set<int *>(p, p + n)); std::vector<std::vector<int>> r; back(write(v), r); vf_check(r.size() == 2 && r[0].size() == live && r[1].size() == live, "present keys of nested sets only"); vf_reach("nested"); break; }
  }
}
VF_ENTRY(json_diagnostic_back) { Leak lk;
  const char *kind = vf_bool("kind") ? "json error" : "w"; bcl::Diagnostic d(kind), r(kind); unsigned n = vf_choose(vf_param("count", 2) + 1, "count");
  for (unsigned i = 0; i < n; ++i) { char b[4]; unsigned m = vf_param("n", 1); vf_sym(b, m, "text"); b[m] = 0; for (unsigned j = 0; j < m; ++j) vf_assume(b[j] != 0); unsigned c = vf_choose(2, "code"); d.insert(c ? 12 : 3, "%s", c ? 4 : vf_in<uint8_t>(0, 12, "pos"), b); }
  back(write(d), r); vf_check(r.size() == d.size(), "every message is read back"); auto j = r.begin(); for (auto i = d.begin(); i != d.end(); ++i, ++j) vf_check(!strcmp(*i, *j), "messages are read back in order"); vf_reach("diagnostic");
}
