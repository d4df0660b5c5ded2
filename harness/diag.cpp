#include "vf.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iterator>
#include <string>
#include <utility>
// formatting may fail: the k-th call reports an encoding error
static int failAt = -1, calls;
static bool failing() { return calls++ == failAt; }
namespace std { template <class... A> int vf_snprintf(char *b, size_t n, const char *f, A... a) { if (failing()) return -1; return ::snprintf(b, n, f, a...); } }
#define snprintf vf_snprintf
#include <bcl/Diagnostic.h>
#undef snprintf
static std::string text(const char *kind, uint64_t code, uint64_t pos, const std::string &m) {
  auto num = [](uint64_t v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; };
  return std::string(kind) + " C" + num(code) + "(" + num(pos) + "): " + m;
}
struct Rec { std::string m[6]; unsigned n = 0; uint64_t internal = 0; };
static void same(const bcl::Diagnostic &d, const Rec &r) {
  vf_check(d.size() == r.n && d.empty() == (r.n == 0) && d.internal_size() == r.internal, "counts");
  unsigned i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) { vf_check(i < r.n && r.m[i] == *it, "messages in insertion order"); }
  vf_check(i == r.n, "every message is enumerated");
  i = r.n; for (auto it = d.rbegin(); it != d.rend(); it++) { vf_check(i > 0 && r.m[--i] == *it, "messages in reverse order"); }
  vf_check(i == 0, "every message is enumerated backwards");
  if (r.n) { auto it = d.cend(); it--; vf_check(r.m[r.n - 1] == *it, "last message"); auto c = d.cbegin(); vf_check(!(c == d.cend()), "not at the end"); auto k = --d.cend(); vf_check(r.m[r.n - 1] == *k, "last message"); }
  else vf_check(d.cbegin() == d.cend() && d.crbegin() == d.crend(), "empty range");
}
static bool add(bcl::Diagnostic &d, Rec &r, const char *kind, bool first) {
  static const uint64_t nums[] = {0, 7, 10, 4294967296ull, UINT64_MAX};
  uint64_t code = 3, pos = 7; if (first) { unsigned k = vf_choose(5, "numbers"); code = nums[k]; pos = nums[(k + 2) % 5]; } std::string m; bool ok;
  failAt = (int)vf_choose(5, "fail") - 1; calls = 0;
  switch (vf_choose(4, "message")) {
  case 0: m = "plain"; ok = d.insert(code, "plain", pos); break;
  case 1: { unsigned n = vf_choose(vf_param("n", 2) + 1, "length"); char c[8]; for (unsigned i = 0; i < n; ++i) { c[i] = vf_any<char>("c"); vf_assume(c[i] != 0); } c[n] = 0; m = std::string("<") + c + ">"; ok = d.insert(code, "<%s>", pos, (const char *)c); for (auto &x : c) x = 'X'; break; }
  case 2: { static const int vs[] = {0, -1, 10, INT32_MAX, INT32_MIN}; int v = vs[vf_choose(5, "v")]; char b[16]; ::snprintf(b, 16, "n=%d", v); m = b; ok = d.insert(code, "n=%d", pos, v); break; }
  default: m = ""; ok = d.insert(code, "", pos); break;
  }
  bool fails = failAt >= 0 && failAt < 4 && calls > failAt; failAt = -1;
  vf_check(ok == !fails, "insertion succeeds iff the text could be formatted");
  if (ok) { r.m[r.n++] = text(kind, code, pos, m); vf_reach("inserted"); } else { ++r.internal; vf_reach("failed"); }
  return ok;
}
VF_ENTRY(diag_history) {
  uint64_t live0 = vf_live_allocs(); unsigned ops = vf_param("ops", 2);
  {
    unsigned k = vf_choose(3, "kind"); char kind[8] = "error"; kind[k == 0 ? 0 : k == 1 ? 1 : 5] = 0;
    std::string kd(kind);
    bcl::Diagnostic d(kind); for (auto &c : kind) c = '#';
    vf_check(kd == d.getKind(), "kind is kept"); Rec r; same(d, r);
    for (unsigned i = 0; i < ops; ++i) { add(d, r, kd.c_str(), i == 0); same(d, r); }
    switch (vf_choose(3, "last")) {
    case 0: d.clear(); r = Rec(); same(d, r); failAt = -1; vf_check(d.insert(1, "after", 2) && kd == d.getKind(), "a cleared list can be used"); r.m[r.n++] = text(kd.c_str(), 1, 2, "after"); same(d, r); vf_reach("cleared"); break;
    case 1: { bcl::Diagnostic e(kd.c_str()); Rec re; failAt = -1; bool other = vf_bool("other"); if (other) { e.insert(1, "other", 2); re.m[re.n++] = text(kd.c_str(), 1, 2, "other"); } if (other == (r.n > 1)) std::swap(d, e); else d.swap(e); same(e, r); same(d, re); vf_check(e.insert(4, "after", 5) && d.insert(5, "later", 4), "exchanged lists can be used"); r.m[r.n++] = text(e.getKind(), 4, 5, "after"); re.m[re.n++] = text(d.getKind(), 5, 4, "later"); same(e, r); same(d, re); vf_reach("swapped"); break; }
    case 2: break;
    }
  }
  vf_check(vf_live_allocs() == live0, "all texts are released");
}
// long texts: lengths around sizes which buffers usually have
VF_ENTRY(diag_many) { // more messages and failures than a small counter can hold
  uint64_t live0 = vf_live_allocs();
  {
    static const unsigned N[] = {9, 33, 130, 260}; unsigned n = N[vf_choose(4, "messages")], lost = vf_choose(2, "lost") ? n : 0; bcl::Diagnostic d("error"); char c = vf_any<char>("c"); vf_assume(c != 0); const char b[2] = {c, 0}; failAt = -1;
    for (unsigned i = 0; i < n; ++i) { vf_check(d.insert(i, "%s %d", i * 3, b, (int)i), "a message is stored"); if (lost) { calls = 0; failAt = (int)(i % 4); vf_check(!d.insert(1, "lost %d", 2, 3), "a failure is reported"); failAt = -1; } }
    vf_check(d.size() == n && !d.empty() && d.internal_size() == lost, "counts"); unsigned i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) vf_check(i < n && text("error", i, i * 3, std::string(b) + " " + std::to_string(i)) == *it, "messages in insertion order"); vf_check(i == n, "every message is enumerated"); for (auto it = d.rbegin(); it != d.rend(); ++it) --i; vf_check(i == 0, "every message is enumerated backwards");
    if (vf_bool("swapped")) { bcl::Diagnostic e("error"); e.swap(d); vf_check(e.size() == n && e.internal_size() == lost && d.empty() && !d.internal_size(), "lists are exchanged"); } else { d.clear(); vf_check(d.empty() && !d.size() && !d.internal_size() && d.begin() == d.end(), "a list is cleared"); } vf_reach("many");
  }
  vf_check(vf_live_allocs() == live0, "all texts are released");
}
VF_ENTRY(diag_long) {
  uint64_t live0 = vf_live_allocs();
  {
    static const unsigned base[] = {15, 32, 64, 80, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 5000}; unsigned n = base[vf_choose(14, "size")]; bool kindIsLong = vf_bool("kind"); n = n + vf_choose(3, "delta") - 1; if (vf_bool("prefix")) n -= 13;
    std::string s(n, 'x'); char c = vf_any<char>("c"); vf_assume(c != 0); s[0] = c; s[n - 1] = c; bcl::Diagnostic d(kindIsLong ? s.c_str() : "error"); failAt = -1;
    bool ok = kindIsLong ? d.insert(1, "%s", 2, "text") : d.insert(1, "%s%d", 2, s.c_str(), 7); vf_check(ok && d.size() == 1, "a long message is stored");
    vf_check(text(kindIsLong ? s.c_str() : "error", 1, 2, kindIsLong ? "text" : s + "7") == *d.begin(), "a long message is kept"); vf_reach("long");
  }
  vf_check(vf_live_allocs() == live0, "all texts are released");
}
