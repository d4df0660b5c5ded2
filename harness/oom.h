// Allocations which may fail: while armed, every allocation of the code forks into one which succeeds and one which throws std::bad_alloc.
#ifndef VF_OOM_H
#define VF_OOM_H
#include "vf.h"
#include <new>
extern "C" { void *vf_raw_new(size_t); void *vf_raw_newarr(size_t); void vf_raw_delete(void *); void vf_raw_deletearr(void *); }
static unsigned oomLeft; static bool oomFailed;
static void oomMay() { if (oomLeft && vf_choose(2, "oom")) { --oomLeft; oomFailed = true; throw std::bad_alloc(); } }
void *operator new(size_t n) { oomMay(); return vf_raw_new(n); }
void *operator new[](size_t n) { oomMay(); return vf_raw_newarr(n); }
void operator delete(void *p) noexcept { vf_raw_delete(p); }
void operator delete[](void *p) noexcept { vf_raw_deletearr(p); }
void operator delete(void *p, size_t) noexcept { vf_raw_delete(p); }
void operator delete[](void *p, size_t) noexcept { vf_raw_deletearr(p); }
// runs f while up to vf_param("fails") allocations fail; true if it has not thrown std::bad_alloc
template <class F> static bool tight(F f) {
  oomLeft = (unsigned)vf_param("fails", 1); oomFailed = false; bool ok = true;
  try { f(); } catch (std::bad_alloc &) { ok = false; }
  oomLeft = 0; vf_check(ok || oomFailed, "allocations do not fail by themselves"); return ok;
}
#endif
