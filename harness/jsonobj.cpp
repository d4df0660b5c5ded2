#include "vf.h"
#include <deque>
#include <bcl/Json.h>
#include "jsonref.h"
struct Leak { uint64_t n = vf_live_allocs(); ~Leak() { vf_check(vf_live_allocs() == n, "everything that was allocated is released"); } };
static bool part(int b) { return vf_param("oracle", 3) & b; }
#define ACC(c, m) do { if (part(1)) vf_check(c, m); } while (0)
#define VAL(c, m) do { if (part(2)) vf_check(c, m); } while (0)
JSON_OBJECT_BEGIN(Point)
JSON_OBJECT_PAIR_2(Point, X, int, Y, int)
JSON_OBJECT_END(Point)
JSON_DEFAULT_TRAITS(::, Point)
JSON_OBJECT_BEGIN(Human)
JSON_OBJECT_ROOT_PAIR_3(Human, Name, std::string, Age, std::optional<int>, Tags, std::vector<int>)
  Human() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Human)
JSON_DEFAULT_TRAITS(::, Human)
JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR(Dog, Name, std::string)
  Dog() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Dog)
JSON_DEFAULT_TRAITS(::, Dog)
using PointMap = std::map<std::string, Point>;
namespace zoo {
JSON_OBJECT_BEGIN(Cage)
JSON_OBJECT_ROOT_PAIR_4(Cage, Corner, Point, Corners, std::vector<Point>, Open, bool, By, PointMap)
  Cage() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Cage)
}
JSON_DEFAULT_TRAITS(zoo::, Cage)
JSON_OBJECT_BEGIN(Nothing)
JSON_OBJECT_ROOT_PAIR_3(Nothing, First, int *, Maybe, int *, Last, int *)
  Nothing() : JSON_INIT_ROOT { (*this)[First] = (*this)[Maybe] = (*this)[Last] = nullptr; }
JSON_OBJECT_END(Nothing)
JSON_DEFAULT_TRAITS(::, Nothing)

static bool operator==(const Point &a, const Point &b) { return a[Point::X] == b[Point::X] && a[Point::Y] == b[Point::Y]; }
static Point pt(int x, int y) { Point p; p[Point::X] = x; p[Point::Y] = y; return p; }
struct RPoint { int X = -7, Y = -7; };
template <> struct Ref<RPoint> { static int read(Lz &z, unsigned &i, RPoint &o) { return rObject(z, i, [&](auto f) { f("X", o.X); f("Y", o.Y); }); } };
template <class T> static bool run(const std::string &t, T &v) { json::Parser<> p(t); bool ok = p.parse(v); vf_check(ok == !p.hasErrors() && !p.errors().internal_size(), "parsing succeeds exactly when no error is recorded"); vf_observe(ok); return ok; }
template <class T> static std::string write(const T &v) { return json::Parser<>::unparse(v); }
static int elem(const char *nm) { return vf_in<uint8_t>(0, (uint8_t)vf_param("hi", 12), nm); }
static std::string dec(int v) { return std::to_string(v); }
// two arbitrary bytes in a text: replaced, or the first one inserted
static std::string holes(std::string t) {
  unsigned n = t.size(), i = vf_choose(n, "at"); char c[2]; vf_sym(c, 2, "byte"); switch (vf_choose(vf_param("edits", 4), "edit")) { case 0: t[i] = c[0]; if (i + 1 < n) { unsigned j = i + 1 + vf_choose(n - i - 1, "at"); t[j] = c[1]; } break; case 1: t.insert(i, 1, c[0]); break; case 2: t.erase(i, 1); break; case 3: t.resize(i); t += c[0]; break; } return t; }
template <class T> static void holed(const char *text) {
  std::string t = holes(text); T v{}; bool ok = run(t, v); Lz z(t); T r{}; int a = rWhole(z, r);
  if (a == 1) { ACC(ok, "a well-formed text is accepted"); VAL(!ok || v == r, "values are those which are written in the text"); vf_reach("accepted"); }
  if (a == 0) { ACC(!ok, "a malformed text is refused"); vf_reach("refused"); }
}
VF_ENTRY(json_holes) { Leak lk;
  unsigned k = vf_param("kind", -1); switch (k) {
  case 0: holed<std::vector<int>>("[1,20]"); break;
  case 1: holed<std::vector<int>>("{\"1\":5,\"0\":6}"); break;
  case 2: holed<std::map<int, int>>("{\"1\":2,\"3\":4}"); break;
  case 3: holed<std::set<int>>(" [7, 8]"); break;
  case 4: holed<std::vector<std::vector<int>>>("[[1],[],[2,3]]"); break;
  case 5: holed<std::map<int, std::vector<int>>>("{\"1\":[2],\"3\":[]}"); break;
  case 6: holed<std::vector<std::optional<int>>>("[null,5]"); break;
  case 7: holed<std::vector<std::string>>("[\"a\",\"bc\",1]"); break;
  case 8: holed<std::map<std::string, std::map<int, bool>>>("{\"a\":{\"1\":true}}"); break;
  case 9: holed<int>(" 123 "); break;
  }
}

VF_ENTRY(obj_holes) { Leak lk; // an object with two numbers
  const char *ts[] = {"{\"X\":1,\"Y\":2}", "{\"Y\": 4 ,\"z\":[5],\"X\":3}", "{\"zz\":{\"X\":9},\"X\":1}"}; std::string t = holes(ts[vf_param("text", 0)]);
  Point v; v[Point::X] = v[Point::Y] = -7; bool ok = run(t, v); Lz z(t); RPoint r; int a = rWhole(z, r);
  if (a == 1) { ACC(ok, "a well-formed object is accepted"); if (ok) { VAL(v[Point::X] == r.X && v[Point::Y] == r.Y, "fields are those which are written in the text"); } vf_reach("accepted"); }
  if (a == 0) { ACC(!ok, "a malformed object is refused"); vf_reach("refused"); }
}
// the order of keys, spaces and unknown keys do not matter
VF_ENTRY(obj_members) { Leak lk;
  int age = elem("age"), e0 = elem("tag"), e1 = elem("tag"); char nm; vf_sym(&nm, 1, "letter"); vf_assume_((nm != '"') & (nm != '\\')); unsigned nt = vf_choose(3, "tags");
  static const char *unk[] = {"\"u\":null", "\"Ages\":12", "\"Nam\":\"Age\"", "\"u\":{}", "\"u\":[[],{\"Age\":1}]", "\"u\":{\"Name\":[1,{\"k\":\"}]\"}]}", "\"\":\"{\""};
  std::string m[5]; unsigned n = 0; bool hn = vf_bool("hasName"), ha = vf_bool("hasAge"), ht = vf_bool("hasTags"), hu = vf_bool("unknown"), hz = vf_bool("null");
  if (hn) m[n++] = std::string("\"Name\":\"n") + nm + "\""; if (ha) m[n++] = "\"Age\":" + (hz ? std::string("null") : dec(age)); if (ht) m[n++] = nt == 0 ? "\"Tags\":[]" : nt == 1 ? "\"Tags\":[" + dec(e0) + "]" : "\"Tags\":{\"1\":" + dec(e1) + ",\"0\":" + dec(e0) + "}"; if (hu) m[n++] = unk[vf_choose(7, "which")];
  // any order
  for (unsigned i = 0; i + 1 < n; ++i) std::swap(m[i], m[i + vf_choose(n - i, "order")]);
  char sp; vf_sym(&sp, 1, "space"); vf_assume_((sp == ' ') | ((sp >= '\t') & (sp <= '\r'))); unsigned where = vf_choose(4, "spaces");
  std::string t; if (where == 1) t += sp; t += '{'; if (where == 2) t += sp; for (unsigned i = 0; i < n; ++i) { if (i) { if (where == 3) t += sp; t += ','; if (where == 2) t += sp; } t += m[i]; } if (where == 2) t += sp; t += '}'; if (where == 1) t += sp;
  Human h; h[Human::Age] = 77; h[Human::Tags] = {5, 5, 5}; h[Human::Name] = "old"; bool ok = run(t, h); vf_check(ok, "an object is accepted whatever the order of its keys is");
  vf_check(h[Human::Name] == (hn ? std::string("n") + nm : std::string("old")), "text field"); if (ha) vf_check(hz ? !h[Human::Age] : h[Human::Age] && *h[Human::Age] == age, "number field"); else vf_check(h[Human::Age] == 77, "fields which are not mentioned are kept");
  auto &g = h[Human::Tags]; if (ht) vf_check(g.size() == nt && (nt < 1 || g[0] == e0) && (nt < 2 || g[1] == e1), "array field"); else vf_check(g.size() == 3 && g[0] == 5, "fields which are not mentioned are kept"); vf_reach(hu ? "unknown" : "known");
}
// writing: declared order, own names, fields without a value are left out; then reading back
VF_ENTRY(obj_back) { Leak lk;
  Human h; std::string nm; unsigned k = vf_choose(3, "size"); char b[2]; vf_sym(b, 2, "text"); nm.assign(b, k); h[Human::Name] = nm; bool ha = vf_bool("hasAge"); int age = elem("age"); if (ha) h[Human::Age] = age; unsigned nt = vf_choose(3, "tags"); for (unsigned i = 0; i < nt; ++i) h[Human::Tags].push_back(elem("tag"));
  std::string w = write(h), e = "{\"Name\":" + write(nm) + ",\"Age\":" + (ha ? dec(age) : std::string("null")) + ",\"Tags\":" + write(h[Human::Tags]) + "}"; vf_check(w == e, "fields are written in their order, with their names"); 
  Human r; vf_check(run(w, r), "a written object is read back"); vf_check(r[Human::Name] == nm && r[Human::Age] == h[Human::Age] && r[Human::Tags] == h[Human::Tags], "fields are read back"); vf_reach("plain");
  // with the identifier in front
  const char *key = vf_bool("key") ? "kind" : "name"; bool viaObject = vf_bool("object"); std::string o = viaObject ? json::Parser<Dog, Human>::unparse(static_cast<const json::Object &>(h), key) : json::Parser<Human>::unparseAsObject(h, key);
  vf_check(o == "{\"" + std::string(key) + "\":\"Human\"," + w.substr(1), "the identifier is written in front of the fields");
  json::Parser<Dog, Human> p(o, key); auto q = p.parse(); vf_check(q && !p.hasErrors() && q->is<Human>() && !q->is<Dog>() && q->getName() == "Human", "the type is found by the identifier"); auto &x = q->as<Human>(); vf_check(x[Human::Name] == nm && x[Human::Age] == h[Human::Age] && x[Human::Tags] == h[Human::Tags], "fields are read back"); vf_reach("named");
}
VF_ENTRY(obj_nested_back) { Leak lk;
  zoo::Cage c; using C = zoo::Cage; c[C::Corner] = pt(elem("x"), elem("y")); c[C::Open] = vf_bool("open"); unsigned n = vf_choose(vf_param("corners", 2), "corners"); for (unsigned i = 0; i < n; ++i) c[C::Corners].push_back(pt(elem("x"), 3)); unsigned m = vf_choose(vf_param("by", 2), "by"); for (unsigned i = 0; i < m; ++i) { char k; vf_sym(&k, 1, "key"); c[C::By][std::string(1, k)] = pt(4, elem("y")); }
  std::string w = write(c); C r; vf_check(run(w, r), "a written object is read back"); vf_check(r[C::Corner] == c[C::Corner] && r[C::Open] == c[C::Open] && r[C::Corners].size() == n && r[C::By].size() == c[C::By].size(), "fields are read back"); for (unsigned i = 0; i < n; ++i) vf_check(r[C::Corners][i] == c[C::Corners][i], "objects of an array are read back");
  auto i = r[C::By].begin(); for (auto &p : c[C::By]) { vf_check(i->first == p.first && i->second == p.second, "objects of a map are read back"); ++i; } vf_reach("nested");
  json::Parser<C> p(json::Parser<C>::unparseAsObject(c)); auto q = p.parse(); vf_check(q && q->is<C>() && q->as<C>()[C::Corner] == c[C::Corner] && q->as<C>()[C::Open] == c[C::Open], "an object is found by its identifier");
}
// choice of the type by the identifier
VF_ENTRY(obj_named) { Leak lk;
  const char *key = vf_bool("key") ? "kind" : "name"; char id[6]; unsigned len = 3 + 2 * vf_choose(2, "length"); static const char *base[] = {"Dog", "Human"}; memcpy(id, base[len == 5], len); unsigned at = vf_choose(len, "at"); vf_sym(id + at, 1, "letter"); vf_assume_((id[at] != '"') & (id[at] != '\\')); std::string ident(id, len);
  std::string m[4]; unsigned n = 0, bad = vf_choose(3, "bad"); m[n++] = "\"" + std::string(key) + "\":\"" + ident + "\""; m[n++] = bad == 1 ? "\"Name\":[1]" : "\"Name\":\"it\""; switch (vf_choose(7, "other")) { case 0: break; case 4: m[n++] = "\"names\":\"Dog\""; break; case 5: m[n++] = "\"kinds\":\"Human\""; break; case 6: m[n++] = "\"kin\":\"Dog\""; break; case 1: m[n++] = "\"Tags\":[1,2]"; break; case 2: m[n++] = "\"q\":{\"name\":\"Dog\",\"kind\":\"Dog\"}"; break; case 3: m[n++] = "\"nam\":[\"name\",{}]"; break; }
  for (unsigned i = 0; i + 1 < n; ++i) std::swap(m[i], m[i + vf_choose(n - i, "order")]); std::string t = "{"; for (unsigned i = 0; i < n; ++i) t += (i ? "," : "") + m[i]; if (bad != 2) t += "}";
  json::Parser<Dog, Human, Nothing> p(t, key); auto q = p.parse(); vf_observe(q != nullptr); bool dog = ident == "Dog", man = ident == "Human"; bool bad1 = bad == 1;
  if (bad || !(dog || man)) { vf_check(!q && p.hasErrors(), "no object without a known identifier and a proper text"); vf_reach(bad1 ? "value" : bad ? "text" : "identifier"); }
  else { vf_check(q && !p.hasErrors(), "the object is built"); vf_check(q->is<Dog>() == dog && q->is<Human>() == man && !q->is<Nothing>() && q->getName() == ident, "the type is chosen by the identifier"); vf_check((dog ? q->as<Dog>()[Dog::Name] : q->as<Human>()[Human::Name]) == "it", "fields are read"); auto again = p.parse(); vf_check(again && !p.hasErrors() && again->is<Dog>() == dog && (dog ? again->as<Dog>()[Dog::Name] : again->as<Human>()[Human::Name]) == "it", "the text can be parsed again"); vf_reach(dog ? "dog" : "human"); }
}
VF_ENTRY(obj_absent) { Leak lk; // texts without an identifier
  const char *ts[] = {"{}", "{\"Name\":\"it\"}", "{\"q\":{\"name\":\"Dog\"}}", "[]", "\"name\"", "", "{\"name\":1}", "{\"name\":[\"Dog\"]}", "{\"name\":\"Dog\"", "{\"name\" \"Dog\"}", "{\"q\":[[\"name\",\"Dog\"]}"}; std::string t = ts[vf_choose(11, "text")]; unsigned i = 0; char c; vf_sym(&c, 1, "byte"); if (vf_bool("more")) { vf_assume_(c != '}'); t += c; }
  json::Parser<Dog> p(t); auto q = p.parse(); vf_check(!q && p.hasErrors(), "no object, an error"); vf_reach("absent"); Nothing n; std::string w = json::Parser<Nothing>::unparseAsObject(n); vf_check(w == "{\"name\":\"Nothing\"}", "an object without values"); json::Parser<Dog, Nothing> r(w); auto x = r.parse(); vf_check(x && x->is<Nothing>() && !x->as<Nothing>()[Nothing::Maybe] && !x->as<Nothing>()[Nothing::Last], "an object without values is read back");
}

VF_ENTRY(obj_sparse) { Leak lk; // any fields may have no value
  int e[3]; Nothing n; for (int &x : e) x = elem("e"); bool a = vf_bool("first"), b = vf_bool("middle"), c = vf_bool("last"); if (a) n[Nothing::First] = e; if (b) n[Nothing::Maybe] = e + 1; if (c) n[Nothing::Last] = e + 2;
  std::string w = "{"; auto add = [&](const char *k, int x) { if (w.size() > 1) w += ','; w += '"'; w += k; w += "\":" + dec(x); }; if (a) add("First", e[0]); if (b) add("Maybe", e[1]); if (c) add("Last", e[2]); w += '}'; std::string o = write(n); vf_check(o == w, "fields without a value are left out");
  Nothing r; vf_check(run(o, r), "a written object is read back"); int *p[] = {r[Nothing::First], r[Nothing::Maybe], r[Nothing::Last]}; bool h[] = {a, b, c}; for (int i = 0; i < 3; ++i) { vf_check(h[i] == (p[i] != nullptr) && (!p[i] || *p[i] == e[i]), "fields are read back"); delete p[i]; }
  std::string g = json::Parser<Nothing, Dog>::unparseAsObject(n); vf_check(g == "{\"name\":\"Nothing\"" + (w.size() > 2 ? "," + w.substr(1) : w.substr(1)), "the identifier is written in front of the fields"); vf_reach(a || b || c ? "some" : "none");
}
// arbitrary texts
VF_ENTRY(obj_text) { Leak lk;
  unsigned n = vf_choose(vf_param("n", 7) + 1, "length"); char b[16]; vf_sym(b, n, "text"); std::string t(b, n); Point v; v[Point::X] = v[Point::Y] = -7; bool ok = run(t, v); Lz z(t); RPoint r; int a = rWhole(z, r);
  if (a == 1) { ACC(ok, "a well-formed object is accepted"); if (ok) VAL(v[Point::X] == r.X && v[Point::Y] == r.Y, "fields are those which are written in the text"); vf_reach("accepted"); } if (a == 0) ACC(!ok, "a malformed object is refused"); }
VF_ENTRY(obj_named_holes) { Leak lk;
  const char *ts[] = {"{\"n\":\"Dog\",\"Name\":\"a\"}", "{\"Name\":{},\"n\":\"Dog\"}", "{\"Name\":\"a\",\"q\":[1],\"n\":\"Human\"}"}; std::string t = holes(ts[vf_param("text", 0)]); json::Parser<Human, Dog> p(t, "n"); auto q = p.parse();
  vf_check((q != nullptr) == !p.hasErrors(), "an object or an error"); if (q) { vf_check(q->is<Dog>() != q->is<Human>(), "the object has one of the known types"); if (q->is<Dog>()) for (char c : q->as<Dog>()[Dog::Name]) vf_observe((unsigned char)c); vf_reach("object"); } else vf_reach("none"); }
