// exhaustion of memory while JSON is read and written
#include "oom.h"
#include <bcl/Json.h>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
using bcl::Diagnostic;
namespace {
JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR_2(Dog, Name, std::string, Tags, std::vector<int>)
  Dog() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Dog)
}
JSON_DEFAULT_TRAITS(, Dog)
struct Leak { uint64_t live = vf_live_allocs(); ~Leak() { vf_check(vf_live_allocs() == live, "nothing leaks"); } };
static const char *LONG = "a text which is not stored in place";
// r must be empty at first
template <class T, class Free> static void readWrite(const T &v, Free release) {
  std::string whole = json::Parser<>::unparse(v), out; T r{};
  if (tight([&] { out = json::Parser<>::unparse(v); })) vf_check(out == whole, "the whole text is written"); else vf_reach("unwritten");
  vf_observe(whole.size());
  { json::Parser<> p(whole); bool ok = false; bool calm = tight([&] { ok = p.parse(r); });
    if (calm && ok) { vf_check(!p.hasErrors(), "no error"); vf_check(json::Parser<>::unparse(r) == whole, "the whole value is read"); vf_reach("read"); }
    else if (calm) { vf_check(oomFailed && p.hasErrors(), "an error is recorded"); vf_reach("refused"); } else vf_reach("thrown"); }
  release(r);
  { T q{}; json::Parser<> p(whole); vf_check(p.parse(q) && json::Parser<>::unparse(q) == whole, "the value is read as soon as there is memory"); release(q); }
}
template <class T> static void rw(const T &v) { readWrite(v, [](T &) {}); }
VF_ENTRY(oom_json) { Leak lk; {
  char c[1]; vf_sym(c, 1, "c"); vf_assume(c[0] == 'x' || c[0] == '"'); std::string s = std::string(LONG) + c[0]; int e = vf_in<uint8_t>(0, 12, "e");
  switch (vf_param("what", 0)) {
  case 0: rw(s); break;
  case 1: { char *p = (char *)s.c_str(); readWrite(p, [](char *&q) { delete[] q; q = nullptr; }); break; }
  case 2: rw(std::vector<int>{1, e, 3}); break;
  case 3: rw(std::vector<std::string>{s, "b"}); break;
  case 4: rw(std::set<std::string>{s, "b"}); break;
  case 5: rw(std::map<std::string, int>{{s, e}, {"b", 2}}); break;
  case 6: rw(std::multimap<std::string, std::string>{{"b", s}, {"b", "c"}}); break;
  case 7: rw(std::optional<std::string>(s)); break;
  case 8: { int *p = new int(e); readWrite(p, [](int *&q) { delete q; q = nullptr; }); delete p; break; }
  case 9: rw(std::vector<std::vector<int>>{{1}, {e, 2}}); break;
  case 10: rw(e); break;
  case 11: rw(e > 5); break;
  case 12: rw('"'); break;
  case 14: { auto *p = new std::string(s); readWrite(p, [](std::string *&q) { delete q; q = nullptr; }); delete p; break; }
  case 15: { int a[2] = {e, 2}; (void)a; int *q = nullptr; json::Parser<> P("[" + std::to_string(e) + ",2]"); bool ok = false; bool calm = tight([&] { ok = P.parse(q); }); if (ok) { vf_check(calm && q && q[0] == e && q[1] == 2, "the whole array is read"); vf_reach("read"); } else vf_check(oomFailed && !q, "nothing is returned"); delete[] q; break; }
  case 16: rw(std::optional<std::vector<int>>(std::vector<int>{e, 2})); break;
  case 17: rw(std::map<int, std::vector<std::string>>{{e, {s}}, {20, {}}}); break;
  case 18: rw(std::set<std::vector<int>>{{e}, {20, 1}}); break;
  case 13: rw(std::vector<std::optional<int>>{e, std::nullopt}); break;
  }
}
}
VF_ENTRY(oom_json_object) { Leak lk; {
  char c[1]; vf_sym(c, 1, "c"); vf_assume(c[0] == 'x' || c[0] == '"'); Dog d; d[Dog::Name] = std::string(LONG) + c[0]; d[Dog::Tags] = {1, 2}; std::string whole = json::Parser<Dog>::unparseAsObject(d), out;
  if (tight([&] { out = json::Parser<Dog>::unparseAsObject(d); })) vf_check(out == whole, "the whole text is written"); else vf_reach("unwritten");
  json::Parser<Dog> p(whole); std::unique_ptr<json::Object> o; bool calm = tight([&] { o = p.parse(); });
  if (calm && o) { vf_check(!p.hasErrors() && o->is<Dog>() && o->as<Dog>()[Dog::Name] == d[Dog::Name] && o->as<Dog>()[Dog::Tags] == d[Dog::Tags], "the whole object is read"); vf_reach("read"); } else if (calm) { vf_check(oomFailed && p.hasErrors(), "an error is recorded"); vf_reach("refused"); } else vf_reach("thrown");
  auto q = json::Parser<Dog>(whole).parse(); vf_check(q != nullptr, "the object is read as soon as there is memory"); }
}
