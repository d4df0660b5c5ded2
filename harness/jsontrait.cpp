// static maps of traits and usual static maps written as JSON
#include "vf.h"
#include <deque>
#include <bcl/trait.h>
#include <bcl/Json.h>
#include <bcl/cell.h>
struct Leak { uint64_t n = vf_live_allocs(); ~Leak() { vf_check(vf_live_allocs() == n, "everything that was allocated is released"); } };
struct Alpha { static std::string name() { return "alpha"; } }; struct Beta { static std::string name() { return "beta s, [x]"; } }; struct Gamma { static const char *name() { return "g"; } }; struct Lonely { static std::string name() { return "alp"; } };
typedef bcl::TraitDescriptor<bcl::TraitAlternative<Alpha, Beta>, Gamma, bcl::TraitUnion<Lonely>> Desc;
template <class T> using Map = bcl::StaticTraitMap<T, Desc>;
template <class T> static T &at(Map<T> &m, unsigned i) { return i == 0 ? m.template value<Alpha>() : i == 1 ? m.template value<Beta>() : i == 2 ? m.template value<Gamma>() : m.template value<Lonely>(); }
static const char *const K[] = {"\"alpha\"", "\"beta s, [x]\"", "\"g\"", "\"alp\""};
template <class T> static bool run(const std::string &t, T &v) { json::Parser<> p(t); bool ok = p.parse(v); vf_check(ok == !p.hasErrors(), "parsing succeeds exactly when no error is recorded"); return ok; }
// where a key stands in a text, or npos
static size_t key(const std::string &t, unsigned i) { return t.find(std::string(K[i]) + ":"); }
VF_ENTRY(trait_map_back) { Leak lk;
  if (vf_bool("numbers")) {
    Map<int> m, r; for (unsigned i = 0; i < 4; ++i) { at(m, i) = vf_in<uint8_t>(0, 12, "e"); at(r, i) = 99; } std::string t = json::Parser<>::unparse(m);
    for (unsigned i = 0; i < 4; ++i) { size_t k = key(t, i); vf_check(k != std::string::npos && t.find(std::string(K[i]) + ":", k + 1) == std::string::npos, "every trait is written once under its name"); }
    vf_check(run(t, r), "written text is read back"); for (unsigned i = 0; i < 4; ++i) vf_check(at(r, i) == at(m, i), "a value is read back under its trait"); vf_reach("numbers");
  } else {
    Map<std::vector<std::string>> m, r; for (unsigned i = 0; i < 4; ++i) { unsigned n = i < 2 ? vf_choose(3, "size") : i - 2; char c; vf_sym(&c, 1, "c"); for (unsigned j = 0; j < n; ++j) at(m, i).push_back(std::string(j, c)); at(r, i).push_back("old"); }
    vf_check(run(json::Parser<>::unparse(m), r), "written text is read back"); for (unsigned i = 0; i < 4; ++i) vf_check(at(r, i) == at(m, i), "values are read back under their traits"); vf_reach("texts");
  }
}
VF_ENTRY(trait_map_keys) { Leak lk; // any order, some of keys, an unknown one
  int e[4]; bool has[4]; std::string m[5]; unsigned n = 0; for (unsigned i = 0; i < 4; ++i) if ((has[i] = vf_bool("has"))) { e[i] = vf_in<uint8_t>(0, 12, "e"); m[n++] = std::string(K[i]) + ":" + std::to_string(e[i]); }
  static const char *const U[] = {"\"alph\":1", "\"alphas\":{\"alpha\":1}", "\"\":[{\"g\":3}]", "\"Alpha\":null"}; if (vf_bool("unknown")) m[n++] = U[vf_choose(4, "which")]; for (unsigned i = 0; i + 1 < n; ++i) std::swap(m[i], m[i + vf_choose(n - i, "order")]);
  std::string t = "{"; for (unsigned i = 0; i < n; ++i) t += (i ? "," : "") + m[i]; t += '}'; Map<int> r; for (unsigned i = 0; i < 4; ++i) at(r, i) = 99;
  vf_check(run(t, r), "an object is accepted whatever the order of its keys is"); for (unsigned i = 0; i < 4; ++i) vf_check(at(r, i) == (has[i] ? e[i] : 99), "a value is read under its trait, others are kept"); vf_reach("read");
}
VF_ENTRY(trait_map_bad) { Leak lk; // an error in the value of any trait is reported
  unsigned w = vf_choose(4, "which"); static const char *const X[] = {"x", "\"y\"", "[1]", "", "99999999999"}; std::string t = "{"; for (unsigned i = 0; i < 4; ++i) t += (i ? "," : "") + std::string(K[i]) + ":" + (i == w ? X[vf_choose(5, "value")] : "1"); t += '}'; Map<int> r; vf_check(!run(t, r), "malformed values are refused"); vf_reach("refused");
}
