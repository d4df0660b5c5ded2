#include "vf.h"
#include <array>
#include <utility>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
template <unsigned D> struct Ix { std::size_t i[D]; };
template <class A, unsigned D> static auto &at(A &a, const std::size_t *i) {
  if constexpr (std::is_same_v<A, bcl::marray<int, D>>) {
    if constexpr (D == 2) { auto r = a[i[0]]; return r[i[1]]; } else if constexpr (D == 3) { auto r = a[i[0]][i[1]]; return r[i[2]]; } else { auto r = a[i[0]][i[1]][i[2]]; return r[i[3]]; }
  } else {
    if constexpr (D == 2) return a(i[0], i[1]); else if constexpr (D == 3) return a(i[0], i[1], i[2]); else return a(i[0], i[1], i[2], i[3]);
  }
}
template <class A, unsigned D> static void body() {
  uint64_t live0 = vf_live_allocs(); long mx = vf_param("max", 3);
  {
    std::array<std::size_t, D> dims; std::size_t total = 1;
    for (unsigned k = 0; k < D; ++k) { dims[k] = vf_choose(mx, "dim") + 1; total *= dims[k]; }
    A a0 = vf_bool("rvalue_dims") ? A(std::array<std::size_t, D>(dims)) : A(dims);
    // two arbitrary index tuples
    std::size_t p[D], q[D]; bool same = true;
    for (unsigned k = 0; k < D; ++k) { p[k] = vf_in<uint8_t>(0, dims[k] - 1, "p"); q[k] = vf_in<uint8_t>(0, dims[k] - 1, "q"); same &= p[k] == q[k]; }
    int v = vf_any<int>("v"), w = vf_any<int>("w");
    // fill
    std::size_t it[D] = {}; unsigned cnt = 0; int first = vf_any<int>("fill");
    for (std::size_t t = 0; t < total; ++t) { at<A, D>(a0, it) = first + (int)t; for (int k = D - 1; k >= 0; --k) { if (++it[k] < dims[k]) break; it[k] = 0; } }
    for (unsigned k = 0; k < D; ++k) it[k] = 0;
    int *base = &at<A, D>(a0, it);
    for (std::size_t t = 0; t < total; ++t) { vf_check((at<A, D>(a0, it) == first + (int)t), "every tuple keeps what was written to it"); int *e = &at<A, D>(a0, it); vf_check(e >= base && e < base + total, "elements are inside the storage"); ++cnt; for (int k = D - 1; k >= 0; --k) { if (++it[k] < dims[k]) break; it[k] = 0; } }
    unsigned how = vf_choose(4, "move");
    std::array<std::size_t, D> d2; for (auto &x : d2) x = 2;
    A target(d2);
    A *a = &a0; A moved(how == 1 ? std::move(a0) : A(d2));
    if (how == 1) a = &moved;
    else if (how == 2) { A &r = (target = std::move(a0)); vf_check(&r == &target, "assignment returns its target"); a = &target; vf_reach("assigned"); }
    else if (how == 3) { A &self = a0; a0 = std::move(self); }
    for (unsigned k = 0; k < D; ++k) it[k] = 0;
    for (std::size_t t = 0; t < total; ++t) { vf_check((at<A, D>(*a, it) == first + (int)t), "moving keeps every element"); for (int k = D - 1; k >= 0; --k) { if (++it[k] < dims[k]) break; it[k] = 0; } }
    vf_check((&at<A, D>(*a, p) == &at<A, D>(*a, q)) == same, "distinct tuples reach distinct elements");
    at<A, D>(*a, p) = v; at<A, D>(*a, q) = w;
    vf_check((at<A, D>(*a, q) == w), "what is written is read back");
    if (!same) { vf_check((at<A, D>(*a, p) == v), "what is written is read back from its tuple only"); vf_reach("distinct"); }
    if constexpr (std::is_same_v<A, bcl::marray<int, D>>) { if constexpr (D == 2) { const auto row = (*a)[q[0]]; vf_check(row[q[1]] == w, "constant access"); vf_check((*a)[q[0]][q[1]] == w, "access"); } else if constexpr (D == 3) { const auto row = (*a)[q[0]][q[1]]; vf_check(row[q[2]] == w, "constant access"); vf_check((*a)[q[0]][q[1]][q[2]] == w, "access"); } }
    if constexpr (!std::is_same_v<A, bcl::marray<int, D>>) { const A &c = *a; if constexpr (D == 2) vf_check(c(q[0], q[1]) == w, "constant access"); else if constexpr (D == 3) vf_check(c(q[0], q[1], q[2]) == w, "constant access"); }
  }
  vf_check(vf_live_allocs() == live0, "storage is released once");
}
VF_ENTRY(marray2) { body<bcl::marray<int, 2>, 2>(); }
VF_ENTRY(marray3) { body<bcl::marray<int, 3>, 3>(); }
VF_ENTRY(marray4) { body<bcl::marray<int, 4>, 4>(); }
VF_ENTRY(marrayf2) { body<bcl::marray_f<int, 2>, 2>(); }
VF_ENTRY(marrayf3) { body<bcl::marray_f<int, 3>, 3>(); }
VF_ENTRY(marrayf4) { body<bcl::marray_f<int, 4>, 4>(); }
// sizes which do not fit in a byte: the elements themselves are symbolic, the rest keeps its value
template <class A, unsigned D> static void large() {
  static const unsigned L[3][3] = {{3, 130, 260}, {260, 3, 2}, {2, 300, 3}}; uint64_t live0 = vf_live_allocs();
  {
    unsigned s = vf_choose(3, "shape"); std::array<std::size_t, D> dims; std::size_t total = 1; for (unsigned k = 0; k < D; ++k) total *= dims[k] = L[s][D == 2 ? (k ? 2 : s == 1 ? 0 : 1) : k]; if (D == 3 && !s) { total /= dims[1]; total *= dims[1] = 2; } A a(dims);
    std::size_t p[D], q[D], z[D] = {}; bool same = true; for (unsigned k = 0; k < D; ++k) { p[k] = vf_in<uint16_t>(0, dims[k] - 1, "p"); q[k] = vf_in<uint16_t>(0, dims[k] - 1, "q"); same &= p[k] == q[k]; }
    int *base = &at<A, D>(a, z), *e = &at<A, D>(a, p), *f = &at<A, D>(a, q); vf_check((e >= base) & (e < base + total), "elements are inside the storage"); vf_check((e == f) == same, "distinct tuples reach distinct elements");
    vf_reach("distinct");
  }
  vf_check(vf_live_allocs() == live0, "storage is released once");
}
VF_ENTRY(marray_large) { if (vf_bool("two")) large<bcl::marray<int, 2>, 2>(); else large<bcl::marray<int, 3>, 3>(); }
VF_ENTRY(marrayf_large) { if (vf_bool("two")) large<bcl::marray_f<int, 2>, 2>(); else large<bcl::marray_f<int, 3>, 3>(); }
