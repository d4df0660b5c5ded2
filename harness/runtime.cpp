// Library models that are executed symbolically in place of the binary parts of
// libc / libstdc++ (everything that is defined in headers is taken from the headers).
#include "vf.h"
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <limits>
#include <cstdarg>
#include <climits>
#include <cerrno>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <system_error>
#include <optional>
#include <variant>
#include <charconv>

extern "C" {
char __libc_single_threaded = 0;
void *__dso_handle;
static int vf_errno;
int *__errno_location() noexcept { return &vf_errno; }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) ++a, ++b, --n; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) noexcept { while ((*d = *s)) ++d, ++s; return d; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) noexcept { char *e = d + strlen(d); while (n && *s) *e++ = *s++, --n; *e = 0; return d; }
#undef strchr
#undef memchr
#undef strrchr
#undef strstr
const char *vf_strchr(const char *s, int c) __asm__("strchr");
const char *vf_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
const char *vf_strrchr(const char *s, int c) __asm__("strrchr");
const char *vf_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return r; } }
const void *vf_memchr(const void *s, int c, size_t n) __asm__("memchr");
const void *vf_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return p + i; return nullptr; }
const char *vf_strstr(const char *h, const char *n) __asm__("strstr");
const char *vf_strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return h; if (!*h) return nullptr; } }
char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *r = (char *)__builtin_malloc(n); __builtin_memcpy(r, s, n); return r; }
size_t strspn(const char *s, const char *a) noexcept { size_t n = 0; while (s[n] && vf_strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) noexcept { size_t n = 0; while (s[n] && !vf_strchr(a, s[n])) ++n; return n; }
size_t wcslen(const wchar_t *s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wcscpy(wchar_t *d, const wchar_t *s) noexcept { wchar_t *r = d; while ((*d++ = *s++)) ; return r; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) noexcept { __builtin_memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t *wcsncpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
int wcscmp(const wchar_t *a, const wchar_t *b) noexcept { while (*a && *a == *b) ++a, ++b; return *a < *b ? -1 : *a > *b; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
char *stpncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (size_t j = i; j < n; ++j) d[j] = 0; return d + i; }
void *mempcpy(void *d, const void *s, size_t n) noexcept { __builtin_memcpy(d, s, n); return (char *)d + n; }
const char *vf_strpbrk(const char *s, const char *a) __asm__("strpbrk");
const char *vf_strpbrk(const char *s, const char *a) { for (; *s; ++s) if (vf_strchr(a, *s)) return s; return nullptr; }
const void *vf_memrchr(const void *s, int c, size_t n) __asm__("memrchr");
const void *vf_memrchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; while (n) if (p[--n] == (unsigned char)c) return p + n; return nullptr; }
#define CT(n, e) int n(int c) noexcept { return (int)(e); }
CT(isdigit, (unsigned)(c - '0') < 10u)
CT(isspace, (c == ' ') | ((unsigned)(c - 9) < 5u))
CT(isupper, (unsigned)(c - 'A') < 26u)
CT(islower, (unsigned)(c - 'a') < 26u)
CT(isalpha, (unsigned)((c | 32) - 'a') < 26u)
CT(isalnum, ((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u))
CT(isxdigit, ((unsigned)((c | 32) - 'a') < 6u) | ((unsigned)(c - '0') < 10u))
CT(isprint, (unsigned)(c - 32) < 95u)
CT(isgraph, (unsigned)(c - 33) < 94u)
CT(iscntrl, ((unsigned)c < 32u) | (c == 127))
CT(isblank, (c == ' ') | (c == '\t'))
CT(ispunct, ((unsigned)(c - 33) < 94u) & !(((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u)))
CT(tolower, (unsigned)(c - 'A') < 26u ? c | 32 : c)
CT(toupper, (unsigned)(c - 'a') < 26u ? c & ~32 : c)
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }
static unsigned long long vf_strtoull_(const char *s, char **end, int base, bool sgn, unsigned long long maxp, unsigned long long maxn) {
  const char *p = s; while (isspace((unsigned char)*p)) ++p;
  bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long lim = neg && sgn ? maxn : maxp, v = 0; bool any = false, ovf = false;
  for (;; ++p) {
    unsigned char c = *p; unsigned d;
    if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break;
    if (d >= (unsigned)base) break;
    any = true;
    if (!ovf) { if (v > lim / (unsigned)base || (v == lim / (unsigned)base && d > lim % (unsigned)base)) ovf = true; else v = v * (unsigned)base + d; }
  }
  if (end) *end = (char *)(any ? p : s);
  if (ovf) { vf_errno = ERANGE; return neg && sgn ? 0 - maxn : maxp; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) noexcept { return (long)vf_strtoull_(s, e, b, true, LONG_MAX, (unsigned long long)LONG_MAX + 1); }
long long strtoll(const char *s, char **e, int b) noexcept { return (long long)vf_strtoull_(s, e, b, true, LONG_MAX, (unsigned long long)LONG_MAX + 1); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return vf_strtoull_(s, e, b, false, ULONG_MAX, 0); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return vf_strtoull_(s, e, b, false, ULONG_MAX, 0); }
long vf_strtol(const char *s, char **e, int b) __asm__("strtol");
long vf_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long vf_strtoll(const char *s, char **e, int b) __asm__("strtoll");
long long vf_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long vf_strtoul(const char *s, char **e, int b) __asm__("strtoul");
unsigned long vf_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long vf_strtoull(const char *s, char **e, int b) __asm__("strtoull");
unsigned long long vf_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) noexcept { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) noexcept { return strtol(s, nullptr, 10); }
long long atoll(const char *s) noexcept { return strtoll(s, nullptr, 10); }

// ---- floating-point numbers
// The decimal notation of a symbolic number is abstract: its sign, "7.", its 63 other
// bits as octal digits and "e0" if an exponent is used.  Conversions which do not
// print enough digits drop the bits that cannot be told from the digits printed.
uint64_t vf_strtod(const char *s, uint64_t *bits, uint64_t width);
static char *vf_fpText(char *o, char *end, uint64_t bits, int fmt, int digits = 17) { // fmt: 0 fixed, 1 scientific, 2 any
  unsigned e = bits >> 52 & 2047; bool sc = fmt == 1 || (fmt == 2 && e && (e < 1023 - 14 || e > 1023 + 50));
  long room = end - o, need = sc ? digits + 8 : e >= 1023 ? ((e - 1023) * 30103 / 100000 > (unsigned)digits ? (e - 1023) * 30103 / 100000 : digits) + 3 : e ? (1023 - e) * 30103 / 100000 + digits + 3 : 2;
  if (need < 26) need = 26; if (room < need) return nullptr;
  if (bits >> 63) *o++ = '-'; *o++ = '7'; *o++ = '.';
  for (int i = 20; i >= 0; --i) *o++ = (char)('0' + (bits >> (i * 3) & 7));
  if (sc) { *o++ = 'e'; *o++ = '0'; }
  return o;
}
static bool vf_fpRead(const char *s, const char *lim, const char *&end, uint64_t &bits) {
  auto at = [&](const char *p) { return lim && p >= lim ? 0 : *p; };
  const char *p = s; bool neg = false; if (at(p) == '-') { neg = true; ++p; }
  if (at(p) != '7') return false; if (at(p + 1) != '.') return false; p += 2; uint64_t v = 0;
  for (int i = 0; i < 21; ++i, ++p) { char c = at(p); if ((unsigned char)(c - '0') > 7) return false; v = v << 3 | (unsigned char)(c - '0'); }
  if (at(p) == 'e') { if (at(p + 1) != '0') return false; p += 2; } else if (isdigit((unsigned char)at(p))) return false;
  bits = v | (uint64_t)neg << 63; end = p; return true;
}
static bool vf_fpNarrow(uint64_t b, uint32_t &f) { // to the nearest float; false: out of range
  unsigned e = b >> 52 & 2047; uint64_t m = b & 0xfffffffffffffull, r = (m + 0xfffffffull + (m >> 29 & 1)) >> 29; uint32_t s = (uint32_t)(b >> 63) << 31;
  if (e == 2047) { f = s | 0x7f800000u | (uint32_t)(m >> 29); return true; } if (!e) { f = s; return !m; }
  if (r >> 23) { r = 0; ++e; } if (e > 1023 + 127) { f = s | 0x7f800000u; return false; } if (e < 1023 - 126) { f = s; return false; }
  f = s | (uint32_t)(e - 896) << 23 | (uint32_t)r; return true;
}
double vf_strtod_(const char *s, char **end) __asm__("strtod");
double vf_strtod_(const char *s, char **end) {
  const char *p = s, *e; uint64_t b; while (isspace((unsigned char)*p)) ++p;
  if (!vf_fpRead(p, nullptr, e, b)) { uint64_t r = vf_strtod(s, &b, 64); e = s + (uint32_t)r; if (r >> 32) vf_errno = ERANGE; }
  if (end) *end = (char *)e; double d; __builtin_memcpy(&d, &b, 8); return d;
}
float vf_strtof_(const char *s, char **end) __asm__("strtof");
float vf_strtof_(const char *s, char **end) {
  const char *p = s, *e; uint64_t b; uint32_t f; while (isspace((unsigned char)*p)) ++p;
  if (vf_fpRead(p, nullptr, e, b)) { if (!vf_fpNarrow(b, f)) vf_errno = ERANGE; } else { uint64_t r = vf_strtod(s, &b, 32); f = (uint32_t)b; e = s + (uint32_t)r; if (r >> 32) vf_errno = ERANGE; }
  if (end) *end = (char *)e; float d; __builtin_memcpy(&d, &f, 4); return d;
}
double vf_atof_(const char *s) __asm__("atof");
double vf_atof_(const char *s) { return vf_strtod_(s, nullptr); }
// what is left of a number if digits are printed (significant ones, or those after the point)
static uint64_t vf_fpRound(uint64_t b, bool fixed, int digits) {
  int e = (int)(b >> 52 & 2047); if (!e || e == 2047) return b;
  long keep = fixed ? e - 1023 + digits * 3322l / 1000 + 1 : digits >= 17 ? 53 : (digits - 1) * 3322l / 1000;
  if (keep >= 53) return b; if (keep <= 0) return fixed ? b & (1ull << 63) : b & ~0xfffffffffffffull; return b & ~0ull << (53 - keep);
}

// ---- formatted output (integers, strings, chars)
struct VfOut { char *b; size_t cap, n; };
static void put(VfOut &o, char c) { if (o.n + 1 < o.cap) o.b[o.n] = c; o.n++; }
static void putNum(VfOut &o, unsigned long long v, bool neg, unsigned base, bool up, int width, bool zero, bool left, int prec) {
  char t[70]; int n = 0; if (v == 0 && prec != 0) t[n++] = '0';
  while (v) { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; }
  while (n < prec) t[n++] = '0';
  int len = n + neg;
  if (!left && !zero) for (int i = len; i < width; ++i) put(o, ' ');
  if (neg) put(o, '-');
  if (!left && zero) for (int i = len; i < width; ++i) put(o, '0');
  while (n) put(o, t[--n]);
  if (left) for (int i = len; i < width; ++i) put(o, ' ');
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) noexcept {
  VfOut o{b, cap, 0};
  for (; *f; ++f) {
    if (*f != '%') { put(o, *f); continue; }
    ++f; bool zero = false, left = false; int width = 0, prec = -1, l = 0;
    for (;; ++f) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; ++f) { if (*f == 'l') ++l; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') --l; else break; }
    switch (*f) {
    case 'd': case 'i': { long long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); putNum(o, v < 0 ? 0 - (unsigned long long)v : v, v < 0, 10, false, width, zero && prec < 0, left, prec); break; }
    case 'u': putNum(o, l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), false, 10, false, width, zero && prec < 0, left, prec); break;
    case 'x': case 'X': putNum(o, l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), false, 16, *f == 'X', width, zero && prec < 0, left, prec); break;
    case 'o': putNum(o, l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), false, 8, false, width, zero && prec < 0, left, prec); break;
    case 'p': put(o, '0'); put(o, 'x'); putNum(o, va_arg(ap, unsigned long), false, 16, false, 0, false, false, -1); break;
    case 'c': { char c = (char)va_arg(ap, int); if (!left) for (int i = 1; i < width; ++i) put(o, ' '); put(o, c); if (left) for (int i = 1; i < width; ++i) put(o, ' '); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s); if (!left) for (int i = n; i < width; ++i) put(o, ' '); for (size_t i = 0; i < n; ++i) put(o, s[i]); if (left) for (int i = n; i < width; ++i) put(o, ' '); break; }
    case '%': put(o, '%'); break;
    case 'f': case 'e': case 'g': { double d = va_arg(ap, double); uint64_t v; __builtin_memcpy(&v, &d, 8); if (prec < 0) prec = 6; char t[400]; char *e = vf_fpText(t, t + 400, vf_fpRound(v, *f == 'f', *f == 'e' ? prec + 1 : *f == 'g' && !prec ? 1 : prec), *f == 'f' ? 0 : *f == 'e' ? 1 : 2); for (char *p = t; p != e; ++p) put(o, *p); break; }
    default: vf_fail("runtime model: unsupported printf conversion"); vf_end_path();
    }
  }
  if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, size_t cap, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) noexcept { return vsnprintf(b, (size_t)-1 >> 1, f, ap); }
int sprintf(char *b, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)-1 >> 1, f, ap); va_end(ap); return r; }
static int vf_vsscanf(const char *s, const char *f, va_list ap) {
  const char *s0 = s; int got = 0;
  for (; *f; ++f) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) ++s; continue; }
    if (*f != '%') { if (*s != *f) return *s || got ? got : -1; ++s; continue; }
    ++f; bool sup = false; int width = 0, l = 0; if (*f == '*') { sup = true; ++f; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    for (;; ++f) { if (*f == 'l') ++l; else if (*f == 'z' || *f == 'j') l = 1; else if (*f == 'h') --l; else break; }
    if (*f == 'n') { if (!sup) *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == '%') { while (isspace((unsigned char)*s)) ++s; if (*s != '%') return got; ++s; continue; }
    if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) ++s;
    if (!*s) return got ? got : -1;
    switch (*f) {
    case 'd': case 'u': case 'i': case 'x': {
      char *e; bool sg = *f == 'd' || *f == 'i'; int base = *f == 'i' ? 0 : *f == 'x' ? 16 : 10; unsigned long long v = sg ? (unsigned long long)strtoll(s, &e, base) : strtoull(s, &e, base); if (e == s) return got; s = e;
      if (!sup) { void *p = va_arg(ap, void *); if (l > 0) *(long *)p = v; else if (l == 0) *(int *)p = (int)v; else if (l == -1) *(short *)p = (short)v; else *(char *)p = (char)v; ++got; } break; }
    case 's': { char *d = sup ? nullptr : va_arg(ap, char *); int n = 0; while (*s && !isspace((unsigned char)*s) && (!width || n < width)) { if (d) *d++ = *s; ++s; ++n; } if (d) { *d = 0; ++got; } break; }
    case 'c': { char *d = sup ? nullptr : va_arg(ap, char *); int n = width ? width : 1; while (n-- && *s) { if (d) *d++ = *s; ++s; } if (d) ++got; break; }
    default: vf_fail("runtime model: unsupported scanf conversion"); vf_end_path();
    }
  }
  return got;
}
int vf_sscanf(const char *s, const char *f, ...) __asm__("__isoc99_sscanf");
int vf_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vsscanf(s, f, ap); va_end(ap); return r; }
int vf_sscanf23(const char *s, const char *f, ...) __asm__("__isoc23_sscanf");
int vf_sscanf23(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vsscanf(s, f, ap); va_end(ap); return r; }
int vf_sscanf0(const char *s, const char *f, ...) __asm__("sscanf");
int vf_sscanf0(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vsscanf(s, f, ap); va_end(ap); return r; }
}

// ---- exceptions of <stdexcept>
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
#define STDEXC(T) T::~T() noexcept {}
#define STDEXC_L(T) T::T(const char *s) : logic_error(s) {} T::T(const string &s) : logic_error(s) {} T::~T() noexcept {}
#define STDEXC_R(T) T::T(const char *s) : runtime_error(s) {} T::T(const string &s) : runtime_error(s) {} T::~T() noexcept {}
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(s) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string::~__cow_string() {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const string &s) : _M_msg("logic_error", 0) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const string &s) : _M_msg("runtime_error", 0) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
STDEXC_L(domain_error) STDEXC_L(invalid_argument) STDEXC_L(length_error) STDEXC_L(out_of_range)
STDEXC_R(range_error) STDEXC_R(overflow_error) STDEXC_R(underflow_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree balancing (std::map / std::set); tree-shape is not observable,
// so an unbalanced binary search tree with the same header protocol is used.
static _Rb_tree_node_base *rbInc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base *rbDec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rbInc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rbInc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rbDec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rbDec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // header stays red
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_parent) { _Rb_tree_node_base *n = h._M_parent; while (n->_M_left) n = n->_M_left; h._M_left = n; n = h._M_parent; while (n->_M_right) n = n->_M_right; h._M_right = n; }
  else { h._M_left = &h; h._M_right = &h; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 13, 29, 59, 127, 257}; for (size_t x : p) if (x >= n) { _M_next_resize = x; return x; } _M_next_resize = n | 1; return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (_M_next_resize == 0 && want < 11) want = 11; if (want >= bkt) { size_t m = want + 1; if (m < bkt * 2) m = bkt * 2; return {true, _M_next_bkt(m)}; } _M_next_resize = bkt; }
  return {false, 0}; }
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = h * 31 + b[i]; return h; }
const nothrow_t nothrow{};
void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { vf_fail("libstdc++ assertion"); vf_end_path(); __builtin_unreachable(); }
} // namespace std
// the out-of-line members of std::string come from the header templates
template class std::allocator<char>;
template class std::basic_string<char>;

// ---- locks where there is one thread only (harnesses with threads put their own models in place of these classes)
#include <mutex>
#include <shared_mutex>
extern "C" {
static int vf_lockOnce(pthread_mutex_t *m) { if (m->__data.__count++ && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) vf_fail("a mutex is locked twice by one thread"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return vf_lockOnce(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (m->__data.__count && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) return EBUSY; return vf_lockOnce(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!m->__data.__count) vf_fail("a mutex which is not locked is unlocked"); else --m->__data.__count; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { if (m->__data.__writers) vf_fail("a lock is taken twice by one thread"); ++m->__data.__readers; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { if (m->__data.__writers || m->__data.__readers) vf_fail("a lock is taken twice by one thread"); m->__data.__writers = 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { if (m->__data.__writers) m->__data.__writers = 0; else if (m->__data.__readers) --m->__data.__readers; else vf_fail("a lock which is not taken is released"); return 0; }
div_t div(int a, int b) noexcept { return {a / b, a % b}; }
ldiv_t ldiv(long a, long b) noexcept { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) noexcept { return {a / b, a % b}; }
char *strtok_r(char *s, const char *d, char **p) noexcept { if (!s) s = *p; s += strspn(s, d); if (!*s) { *p = s; return nullptr; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *p = e; return s; }
char *strtok(char *s, const char *d) noexcept { static char *p; return strtok_r(s, d, &p); }
}

// ---- streams: the templates are instantiated in the harness; there are no facets, so text can be read and
// written unformatted (formatted conversions need a facet and end in an exception)
#include <sstream>
#include <locale>
namespace std {
alignas(16) static char vfLocaleImpl[64]; static const locale::facet *vfNoFacets[64];
static locale::_Impl *vfImpl() { *(const locale::facet ***)(vfLocaleImpl + 8) = vfNoFacets; return (locale::_Impl *)vfLocaleImpl; }
locale::locale() noexcept : _M_impl(vfImpl()) {}
locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &o) noexcept { _M_impl = o._M_impl; return *this; }
size_t locale::id::_M_id() const noexcept { if (!_M_index) { static size_t n; const_cast<id *>(this)->_M_index = ++n; } return _M_index - 1; }
locale::id ctype<char>::id;
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) noexcept {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
// formatted output of texts, characters and integers, input of words and integers (decimal, octal and hexadecimal)
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
static ostream &vf_put(ostream &o, const char *s, streamsize n) {
  if (!o.good()) { o.setstate(ios_base::failbit); return o; } streamsize w = o.width(0); bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
  if (!left) for (; w > n; --w) o.rdbuf()->sputc(o.fill()); for (streamsize i = 0; i < n; ++i) if (o.rdbuf()->sputc(s[i]) == -1) { o.setstate(ios_base::badbit); return o; }
  if (left) for (; w > n; --w) o.rdbuf()->sputc(o.fill()); return o;
}
template <> ostream &__ostream_insert(ostream &o, const char *s, streamsize n) { return vf_put(o, s, n); }
template <class T> static ostream &vf_putInt(ostream &o, T v) {
  auto f = o.flags() & ios_base::basefield; int base = f == ios_base::hex ? 16 : f == ios_base::oct ? 8 : 10; char b[72]; char *e;
  if (base == 10) e = to_chars(b, b + 72, v).ptr; else e = to_chars(b, b + 72, (make_unsigned_t<T>)v, base).ptr;
  string t; if ((o.flags() & ios_base::showbase) && base != 10 && v) t = base == 16 ? "0x" : "0"; if ((o.flags() & ios_base::showpos) && base == 10 && v >= 0) t = "+"; t.append(b, e);
  if (o.flags() & ios_base::uppercase) for (auto &c : t) if (c >= 'a' && c <= 'z') c -= 32; return vf_put(o, t.data(), (streamsize)t.size());
}
template <> template <> ostream &ostream::_M_insert(long v) { return vf_putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return vf_putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(long long v) { return vf_putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return vf_putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(bool v) { return (flags() & ios_base::boolalpha) ? vf_put(*this, v ? "true" : "false", v ? 4 : 5) : vf_putInt(*this, (long)v); }
template <> ostream &ostream::operator<<(int v) { auto f = flags() & ios_base::basefield; return f == ios_base::oct || f == ios_base::hex ? vf_putInt(*this, (long)(unsigned)v) : vf_putInt(*this, (long)v); }
template <> ostream &ostream::operator<<(short v) { auto f = flags() & ios_base::basefield; return f == ios_base::oct || f == ios_base::hex ? vf_putInt(*this, (long)(unsigned short)v) : vf_putInt(*this, (long)v); }
static bool vf_blank(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool vf_begin(istream &in) {
  if (!in.good()) { in.setstate(ios_base::failbit); return false; } int c = in.rdbuf()->sgetc(); if (in.flags() & ios_base::skipws) while (c != -1 && vf_blank(c)) c = in.rdbuf()->snextc();
  if (c == -1) { in.setstate(ios_base::eofbit | ios_base::failbit); return false; } return true;
}
template <> istream &operator>>(istream &in, string &s) {
  if (!vf_begin(in)) return in; s.clear(); streamsize w = in.width(0); int c = in.rdbuf()->sgetc(); ios_base::iostate st = ios_base::goodbit;
  for (; !(w > 0 && (streamsize)s.size() == w); c = in.rdbuf()->snextc()) { if (c == -1) { st |= ios_base::eofbit; break; } if (vf_blank(c)) break; s.push_back((char)c); }
  if (s.empty()) st |= ios_base::failbit; if (st) in.setstate(st); return in;
}
template <> istream &operator>>(istream &in, char &ch) { if (vf_begin(in)) ch = (char)in.rdbuf()->sbumpc(); return in; }
template <class T> static istream &vf_getInt(istream &in, T &v) {
  v = 0; if (!vf_begin(in)) return in; auto f = in.flags() & ios_base::basefield; unsigned base = f == ios_base::hex ? 16 : f == ios_base::oct ? 8 : 10; ios_base::iostate st = ios_base::goodbit; bool neg = false, any = false, over = false; unsigned long long x = 0;
  int c = in.rdbuf()->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; c = in.rdbuf()->snextc(); }
  for (;; c = in.rdbuf()->snextc()) {
    if (c == -1) { st |= ios_base::eofbit; break; } unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) break;
    any = true; unsigned long long y; if (__builtin_mul_overflow(x, (unsigned long long)base, &y) || __builtin_add_overflow(y, (unsigned long long)d, &x)) over = true;
  }
  typedef numeric_limits<T> L; if (!any) st |= ios_base::failbit;
  else if (L::is_signed) { unsigned long long m = (unsigned long long)L::max() + (neg ? 1 : 0); if (over || x > m) { v = neg ? L::min() : L::max(); st |= ios_base::failbit; } else v = (T)(neg ? 0 - x : x); }
  else if (over || x > (unsigned long long)L::max()) { v = L::max(); st |= ios_base::failbit; } else v = (T)(neg ? 0 - x : x);
  if (st) in.setstate(st); return in;
}
template <> istream &istream::operator>>(short &v) { return vf_getInt(*this, v); }
template <> istream &istream::operator>>(int &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(long &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(long long &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned short &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned int &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long &v) { return vf_getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long long &v) { return vf_getInt(*this, v); }
template <> istream &getline(istream &in, string &s, char d) {
  if (!in.good()) { in.setstate(ios_base::failbit); return in; } s.clear();
  ios_base::iostate st = ios_base::goodbit; bool any = false; int c = in.rdbuf()->sgetc();
  for (;; c = in.rdbuf()->snextc()) { if (c == -1) { st |= ios_base::eofbit; break; } any = true; if ((char)c == d) { in.rdbuf()->sbumpc(); break; } s.push_back((char)c); }
  if (!any) st |= ios_base::failbit; if (st) in.setstate(st); return in;
}
}
template std::istream &std::ws(std::istream &); template std::ostream &std::endl(std::ostream &); template std::ostream &std::ends(std::ostream &); template std::ostream &std::flush(std::ostream &);
template class std::basic_streambuf<char>; template class std::basic_ios<char>; template class std::basic_istream<char>; template class std::basic_ostream<char>; template class std::basic_iostream<char>;
template class std::basic_stringbuf<char>; template class std::basic_istringstream<char>; template class std::basic_ostringstream<char>; template class std::basic_stringstream<char>;

// floating-point numbers without locales
static std::to_chars_result vf_toChars(char *b, char *e, uint64_t v, std::chars_format f, int digits) { char *r = vf_fpText(b, e, v, f == std::chars_format::fixed ? 0 : f == std::chars_format::scientific ? 1 : 2, digits); if (!r) return {e, std::errc::value_too_large}; return {r, std::errc()}; }
static uint64_t vf_fpBits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
namespace std {
to_chars_result to_chars(char *b, char *e, double d, chars_format f) noexcept { return vf_toChars(b, e, vf_fpBits(d), f, 17); }
to_chars_result to_chars(char *b, char *e, double d) noexcept { return vf_toChars(b, e, vf_fpBits(d), chars_format::general, 17); }
to_chars_result to_chars(char *b, char *e, double d, chars_format f, int p) noexcept { return vf_toChars(b, e, vf_fpRound(vf_fpBits(d), f == chars_format::fixed, f == chars_format::scientific ? p + 1 : p ? p : 1), f, p); }
to_chars_result to_chars(char *b, char *e, float d, chars_format f) noexcept { return vf_toChars(b, e, vf_fpBits(d), f, 9); }
to_chars_result to_chars(char *b, char *e, float d) noexcept { return vf_toChars(b, e, vf_fpBits(d), chars_format::general, 9); }
to_chars_result to_chars(char *b, char *e, float d, chars_format f, int p) noexcept { return to_chars(b, e, (double)d, f, p); }
}
