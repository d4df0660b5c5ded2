// Objects of several widths declared by the macros.
#include "vf.h"
#include <deque>
#include <bcl/Json.h>
#include "jsonwide.inc"
struct Fill { int d; std::string *w; void operator()(int i, const char *n, int &v) { v = d + i; put(n); *w += std::to_string(v); } void operator()(int i, const char *n, std::string &v) { v = std::string(1, (char)('a' + i % 20)); put(n); *w += '"' + v + '"'; } void operator()(int i, const char *n, bool &v) { v = i % 4 == 3; put(n); *w += v ? "true" : "false"; }
  void put(const char *n) { if (w->size() > 1) *w += ','; *w += '"'; *w += n; *w += "\":"; } };
struct Same { int d; void operator()(int i, const char *, int &v) { vf_check(v == d + i, "number field"); } void operator()(int i, const char *, std::string &v) { vf_check(v == std::string(1, (char)('a' + i % 20)), "text field"); } void operator()(int i, const char *, bool &v) { vf_check(v == (i % 4 == 3), "flag field"); } };
template <class O> static void wide(int d) {
  O o; std::string w = "{"; cells(o, Fill{d, &w}); w += '}'; std::string t = json::Parser<>::unparse(o); vf_check(t == w, "fields are written in the order of their declaration with their names"); O r; json::Parser<> p(t); vf_check(p.parse(r) && !p.hasErrors(), "a written object is read back"); cells(r, Same{d}); vf_reach("wide"); }
VF_ENTRY(obj_wide) { int d = vf_in<uint8_t>(0, (uint8_t)vf_param("hi", 60), "d"); unsigned k = vf_choose(14, "width"), i = 0;
#define X(N) if (k == i++) wide<N>(d);
  WIDE_LIST
}
