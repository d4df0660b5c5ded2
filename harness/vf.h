// Harness API.  The same harness source is executed symbolically (LLVM IR) and,
// for replay, natively (vf_native.cpp reads the recorded input values).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vf_sym(void *p, size_t n, const char *name);              // n arbitrary bytes
uint64_t vf_choose(uint64_t n, const char *name);              // arbitrary value in [0,n), concrete per path
void vf_assume_(int c);
void vf_assert_(int c, const char *msg);
void vf_fail(const char *msg);
void vf_reach(const char *label);                              // vacuity witness
void vf_observe(uint64_t v);                                   // compared with the native run
uint64_t vf_fix(uint64_t v);                                   // case split on the value
uint64_t vf_live_allocs(void);
long vf_param(const char *name, long dflt);
int vf_is_native(void);
void vf_end_path(void);
void vf_print(const char *s, uint64_t v);
void vf_bound_note(const char *s);
uint64_t vf_thread_create(void *(*fn)(void *), void *arg);
void vf_sched(void);
void vf_block(const void *key);
void vf_wake_all(const void *key);
void vf_wake_one(const void *key);
uint64_t vf_thread_self(void);
int vf_thread_done(uint64_t tid);
void vf_hb_release(const void *key);
void vf_hb_acquire(const void *key);
void vf_thread_join_hb(uint64_t tid);
void vf_check_access(const void *p, size_t n, int write);
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define vf_assume(c) vf_assume_((c) ? 1 : 0)
#define vf_assert(c) vf_assert_((c) ? 1 : 0, #c)
#define vf_check(c, msg) vf_assert_((c) ? 1 : 0, msg)
// Every entry is one symbolic run.
#define VF_ENTRY(name) extern "C" void vf_entry_##name()
template <class T> inline T vf_any(const char *name) { T t; vf_sym(&t, sizeof(T), name); return t; }
inline bool vf_bool(const char *name) { return vf_choose(2, name) != 0; }
template <class T> inline T vf_in(T lo, T hi, const char *name) { T t = vf_any<T>(name); vf_assume_((t >= lo) & (t <= hi)); return t; }
