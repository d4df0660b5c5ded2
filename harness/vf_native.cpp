// Native side of the harness API: replays recorded inputs against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
static struct In { std::string name; std::vector<unsigned char> b; } *ins; static size_t nIn, pos; static int preemptBound = 2, preempts;
static long live; static bool counting = true;
extern "C" {
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
void __sanitizer_malloc_hook(const volatile void *, size_t) { if (counting) ++live; }
void __sanitizer_free_hook(const volatile void *p) { if (counting && p) --live; }
const char *__asan_default_options() { return "detect_leaks=0:exitcode=66:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1"; }
const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=66:print_stacktrace=1"; }
#else
static void *fillNew(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0xA5, n); ++live; return p; }
}
#define WEAK __attribute__((weak))
WEAK void *operator new(size_t n) { return fillNew(n); }
WEAK void *operator new[](size_t n) { return fillNew(n); }
WEAK void operator delete(void *p) noexcept { if (p) --live; free(p); }
WEAK void operator delete[](void *p) noexcept { if (p) --live; free(p); }
WEAK void operator delete(void *p, size_t) noexcept { if (p) --live; free(p); }
WEAK void operator delete[](void *p, size_t) noexcept { if (p) --live; free(p); }
extern "C" {
#endif
// used by oom.h
#ifdef VF_ASAN
void *vf_raw_new(size_t n) { return malloc(n ? n : 1); }
void vf_raw_delete(void *p) { free(p); }
#else
void *vf_raw_new(size_t n) { return fillNew(n); }
void vf_raw_delete(void *p) { if (p) --live; free(p); }
#endif
void *vf_raw_newarr(size_t n) { return vf_raw_new(n); }
void vf_raw_deletearr(void *p) { vf_raw_delete(p); }
// the registration of destructors must not count as an allocation; the process ends by _exit
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
static void diverge(const char *what) { fprintf(stdout, "VF-DIVERGED %s\n", what); fflush(stdout); _exit(77); }
static In &next(const char *name, size_t n) {
  if (pos >= nIn) { if (getenv("VF_LAX")) { static In z; z.b.assign(n, 0); return z; } diverge("inputs exhausted"); }
  In &i = ins[pos++];
  if (i.name != name || i.b.size() != n) { fprintf(stdout, "VF-DIVERGED expected %s/%zu got %s/%zu\n", i.name.c_str(), i.b.size(), name, n); fflush(stdout); _exit(77); }
  return i;
}
void vf_sym(void *p, size_t n, const char *name) { In &i = next(name, n); if (n) memcpy(p, i.b.data(), n); }
uint64_t vf_choose(uint64_t n, const char *name) { unsigned char c = next(name, 1).b[0]; if (c >= n) diverge("choice out of range"); return c; }
void vf_assume_(int c) { if (!c) diverge("assumption false"); }
void vf_assert_(int c, const char *m) { if (!c) { fprintf(stdout, "VF-ASSERT-FAILED %s\n", m); fflush(stdout); _exit(42); } }
void vf_fail(const char *m) { vf_assert_(0, m); }
void vf_reach(const char *) {}
void vf_observe(uint64_t v) { fprintf(stdout, "VF-OBS %llu\n", (unsigned long long)v); }
uint64_t vf_fix(uint64_t v) { return v; }
uint64_t vf_live_allocs(void) { return (uint64_t)live; }
static std::map<std::string, long> *params;
long vf_param(const char *n, long d) { auto it = params->find(n); return it == params->end() ? d : it->second; }
int vf_is_native(void) { return 1; }
void vf_end_path(void) { fprintf(stdout, "VF-END\n"); fflush(stdout); _exit(0); }
void vf_print(const char *s, uint64_t v) { fprintf(stderr, "%s %llu\n", s, (unsigned long long)v); }
void vf_bound_note(const char *) {}
void vf_hb_release(const void *) {}
void vf_hb_acquire(const void *) {}
void vf_thread_join_hb(uint64_t) {}
void vf_check_access(const void *p, size_t n, int write) { if (write) { volatile char *q = (volatile char *)p; for (size_t i = 0; i < n; ++i) q[i] = q[i]; } else { volatile const char *q = (volatile const char *)p; char s = 0; for (size_t i = 0; i < n; ++i) s += q[i]; (void)s; } }
}
#ifdef VF_THREADS
#include "vf_native_threads.inc"
#else
extern "C" { void vf_sched(void) {} uint64_t vf_thread_self(void) { return 0; } }
#endif
int main(int argc, char **argv) {
  counting = true;
  params = new std::map<std::string, long>;
  if (argc < 2) return 3;
  char entry[200] = "";
  FILE *f = fopen(argv[1], "r"); if (!f) return 3;
  auto *v = new std::vector<In>; char kind[16], name[256]; static char hex[1 << 16];
  while (fscanf(f, "%15s", kind) == 1) {
    if (!strcmp(kind, "I")) { int n; if (fscanf(f, "%255s %d %65535s", name, &n, hex) != 3) return 3; In i; i.name = name; for (int k = 0; k < n; ++k) { unsigned x; sscanf(hex + 2 * k, "%2x", &x); i.b.push_back(x); } v->push_back(i); }
    else if (!strcmp(kind, "P")) { long x; if (fscanf(f, "%255s %ld", name, &x) != 2) return 3; (*params)[name] = x; }
    else if (!strcmp(kind, "ENTRY")) { if (fscanf(f, "%190s", entry) != 1) return 3; }
    else if (!strcmp(kind, "#")) break;
    else if (!strcmp(kind, "PREEMPT")) { if (fscanf(f, "%d", &preemptBound) != 1) return 3; }
  }
  static char ob[1 << 16], eb[1 << 12]; setvbuf(stdout, ob, _IOFBF, sizeof ob); setvbuf(stderr, eb, _IOLBF, sizeof eb);
  fclose(f); ins = v->data(); nIn = v->size(); live = 0;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry); if (!fn) { fprintf(stderr, "no entry %s\n", entry); return 3; }
  live = 0;
#ifdef VF_THREADS
  vf_run_main(fn);
#else
  fn();
#endif
  printf("VF-DONE\n"); fflush(stdout);
  _exit(0);
}
