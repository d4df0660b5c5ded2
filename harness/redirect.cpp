#include "oom.h"
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
// ---- files, descriptors and streams of a small system in which every call may fail
enum { NF = 3, CAP = 2200, NFD = 16, NST = 8, NOF = 16 };
static struct File { bool exists; unsigned char b[CAP]; long size; } files[NF];   // out, other, terminal
static struct Open { int file; long off; bool app; int refs; } ofds[NOF];
static int fdt[NFD];                                                             // descriptor -> open file, -1
struct Stream { int fd; bool open, eof, err; };
static Stream streams[NST];
static unsigned nStreams, nOfds, recovered, faults, calls; static int fail1, fail2; static bool armed;
static bool failing() { if (!armed) return false; int c = (int)calls++; if (c != fail1 && c != fail2) return false; ++faults; errno = EIO; return true; }
static int newFd(int o) { for (int i = 3; i < NFD; ++i) if (fdt[i] < 0) { fdt[i] = o; ++ofds[o].refs; return i; } vf_fail("descriptors leak"); vf_end_path(); return -1; }
static bool badFd(int d) { return d < 0 || d >= NFD || fdt[d] < 0; }
static void put(int o, unsigned char c) { Open &f = ofds[o]; File &x = files[f.file]; if (f.app) f.off = x.size; if (f.off >= CAP) { vf_fail("model: file is too long"); vf_end_path(); } x.b[f.off++] = c; if (f.off > x.size) x.size = f.off; }
static int get(int o) { Open &f = ofds[o]; File &x = files[f.file]; return f.off < x.size ? x.b[f.off++] : -1; }
static int nameOf(const char *n) { if (!strcmp(n, "out")) return 0; if (!strcmp(n, "other")) return 1; vf_fail("unknown file is opened"); vf_end_path(); return 0; }
static Stream *st(FILE *f) { Stream *s = (Stream *)f; vf_check(s != nullptr && s->open, "a closed or null stream is used"); if (!s || !s->open) vf_end_path(); return s; }
static int m_close(int d) { if (badFd(d)) { vf_fail("a descriptor is closed twice"); errno = EBADF; return -1; } --ofds[fdt[d]].refs; fdt[d] = -1; return failing() ? -1 : 0; }
static int m_dup2(int a, int b) { if (badFd(a) || b < 0 || b >= NFD) { errno = EBADF; return -1; } if (failing()) return -1; if (a == b) return b; if (fdt[b] >= 0) --ofds[fdt[b]].refs; fdt[b] = fdt[a]; ++ofds[fdt[a]].refs; return b; }
static int m_dup(int a) { if (badFd(a)) { errno = EBADF; return -1; } if (failing()) return -1; return newFd(fdt[a]); }
static FILE *m_fopen(const char *n, const char *mode) {
  int f = nameOf(n); if (failing()) return nullptr; char m = mode[0];
  vf_check(m == 'w' || m == 'a' || m == 'r', "mode of a file");
  if (m == 'r' && !files[f].exists) { errno = ENOENT; if (armed) ++faults; return nullptr; }
  files[f].exists = true; if (m == 'w') files[f].size = 0;
  if (nOfds >= NOF || nStreams >= NST) { vf_fail("streams leak"); vf_end_path(); }
  int o = nOfds++; ofds[o] = Open{f, 0, m == 'a', 0}; Stream &s = streams[nStreams++]; s = Stream{newFd(o), true, false, false}; return (FILE *)&s;
}
static int m_fclose(FILE *f) { Stream *s = st(f); s->open = false; int o = fdt[s->fd]; --ofds[o].refs; fdt[s->fd] = -1; return failing() ? EOF : 0; }
static int m_fileno(FILE *f) { return st(f)->fd; }
static int m_fflush(FILE *f) { if (!f) { vf_fail("all opened files are flushed"); return EOF; } st(f); return failing() ? EOF : 0; }
static long m_ftell(FILE *f) { Stream *s = st(f); if (failing()) return -1; return ofds[fdt[s->fd]].off; }
static int m_fseek(FILE *f, long o, int w) { Stream *s = st(f); Open &x = ofds[fdt[s->fd]]; long p = w == SEEK_SET ? o : w == SEEK_CUR ? x.off + o : files[x.file].size + o; if (p < 0) { errno = EINVAL; return -1; } if (failing()) return -1; x.off = p; s->eof = false; return 0; }
static int m_rd(Stream *s) { int c = get(fdt[s->fd]); if (c < 0) s->eof = true; return c; }
static int m_fgetc(FILE *f) { Stream *s = st(f); if (failing()) { s->err = true; return EOF; } return m_rd(s); }
static size_t m_fread(void *p, size_t z, size_t n, FILE *f) { Stream *s = st(f); vf_check(z != 0, "size"); bool bad = failing(); size_t lim = bad ? 1 : z * n, k = 0; for (; k < lim && k < z * n; ++k) { int c = m_rd(s); if (c < 0) break; ((unsigned char *)p)[k] = (unsigned char)c; } if (bad) { s->err = true; s->eof = false; } return k / z; }
static char *m_fgets(char *p, int n, FILE *f) { Stream *s = st(f); if (failing()) { s->err = true; return nullptr; } int k = 0; while (k + 1 < n) { int c = m_rd(s); if (c < 0) break; p[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; p[k] = 0; return p; }
static int m_feof(FILE *f) { return st(f)->eof; }
static int m_ferror(FILE *f) { return st(f)->err; }
static void m_clearerr(FILE *f) { Stream *s = st(f); s->eof = s->err = false; }
static void m_rewind(FILE *f) { m_fseek(f, 0, SEEK_SET); st(f)->err = false; }
static size_t m_fwrite(const void *p, size_t z, size_t n, FILE *f) { Stream *s = st(f); if (failing()) { s->err = true; return 0; } for (size_t i = 0; i < z * n; ++i) put(fdt[s->fd], ((const unsigned char *)p)[i]); return n; }
static char *m_strerror(int e) { static char t[] = "Input/output error"; (void)e; return t; }
static const char *m_errno_name(int) { return "E"; }
namespace std { using ::m_fopen; using ::m_fclose; using ::m_fflush; using ::m_ftell; using ::m_fseek; using ::m_fgetc; using ::m_fread; using ::m_fgets; using ::m_feof; using ::m_ferror; using ::m_clearerr; using ::m_rewind; using ::m_fwrite; using ::m_strerror; }
#undef fopen
#undef feof
#undef getc
#undef fgetc
#undef ferror
#undef fileno
#define fopen m_fopen
#define fclose m_fclose
#define fflush m_fflush
#define ftell m_ftell
#define ftello m_ftell
#define fseek m_fseek
#define fseeko m_fseek
#define fgetc m_fgetc
#define getc m_fgetc
#define fread m_fread
#define fgets m_fgets
#define feof m_feof
#define ferror m_ferror
#define clearerr m_clearerr
#define rewind m_rewind
#define fwrite m_fwrite
#define fileno m_fileno
#define dup2 m_dup2
#define dup m_dup
#define close m_close
#define strerror m_strerror
#include <bcl/utility.h>
#include <bcl/Diagnostic.h>
#include <bcl/RedirectIO.h>
typedef bcl::RedirectIO R;
static void reset() {
  for (auto &f : files) f = File{}; for (auto &s : streams) s = Stream{}; for (int &d : fdt) d = -1; nStreams = nOfds = recovered = faults = calls = 0; fail1 = fail2 = -1; armed = false;
  files[2].exists = true; ofds[nOfds++] = Open{2, 0, true, 3}; fdt[0] = fdt[1] = fdt[2] = 0;
}
static unsigned openStreams() { unsigned n = 0; for (auto &s : streams) n += s.open; return n; }
static unsigned openFds() { unsigned n = 0; for (int d : fdt) n += d >= 0; return n; }
static uint64_t errs(const R &r) { return r.errors().size() + r.errors().internal_size(); }
static void wr(int fd, unsigned char c) { if (badFd(fd)) { vf_fail("the redirected descriptor is closed"); vf_end_path(); } put(fdt[fd], c); }
static void addOld(int f, unsigned n) { files[f].exists = true; for (unsigned i = 0; i < n; ++i) files[f].b[i] = vf_any<unsigned char>("old"); files[f].size = n; }
// ops over one redirection; the reference is the content of the file and positions in it
struct Ref { bool ok; long start, diff; int file; };
static void step(R &r, Ref &f, bool reads) {
  File &x = files[f.file]; uint64_t e0 = errs(r); unsigned ft0 = faults; int o = f.ok ? fdt[1] : -1;
  switch (vf_choose(5, "op")) {
  case 0: { unsigned char c = vf_any<unsigned char>("data"); if (f.ok && !reads) { long s = x.size; wr(1, c); vf_check(x.size == s + 1 && x.b[s] == c, "output reaches the target file, after what it holds"); vf_reach("written"); } break; }
  case 1: { long off = f.ok ? ofds[o].off : 0; bool d = r.isDiff(); if (f.ok && faults == ft0) { vf_check(d == (off != f.diff), "a difference is reported iff something has been written"); vf_check(errs(r) == e0, "no error is reported if nothing fails"); vf_reach(d ? "diff" : "same"); }
    else { vf_check(!d && errs(r) == e0 + 1, "a failure is reported as an error and no difference"); vf_reach("failed"); } if (f.ok) vf_check(ofds[o].off == off, "position is kept"); break; }
  case 2: if (f.ok) { long off = ofds[o].off; std::string d = r.diff(); if (faults == ft0) {
        if (off == f.diff) vf_check(d.empty(), "no changes");
        else { vf_check((long)d.size() == x.size - f.diff, "everything since the position is returned"); for (long i = 0; i < (long)d.size(); ++i) vf_check((unsigned char)d[i] == x.b[f.diff + i], "changes are returned as they are"); vf_reach("changes"); }
        vf_check(errs(r) == e0, "no error is reported if nothing fails"); if (!reads) vf_check(ofds[o].off == x.size, "further output follows"); }
      else if (errs(r) == e0 && (long)d.size() == x.size - f.diff) { recovered += faults - ft0; for (long i = 0; i < (long)d.size(); ++i) vf_check((unsigned char)d[i] == x.b[f.diff + i], "changes are returned as they are"); }   // reading has been continued
      else { vf_check(d.empty() && errs(r) >= e0 + 1 && errs(r) <= e0 + (faults - ft0), "failures are reported, nothing else is, and nothing is returned"); if (!reads && faults == ft0 + 1) { vf_check(ofds[o].off == off, "position is restored"); vf_reach("restored"); } else if (ofds[o].off != off) { vf_reach("lost"); vf_end_path(); } } } break;   // it could not be restored: nothing is known about later calls
  case 3: if (f.ok) { bool s = r.setDiffPos(); if (faults == ft0) { vf_check(s, "position is set"); f.diff = ofds[o].off; } else { vf_check(!s && errs(r) == e0 + 1, "a failure is reported"); vf_end_path(); } } break;
  case 4: r.resetDiffPos(); f.diff = f.start; break;
  }
}
static void arm() { armed = true; unsigned k = vf_choose(vf_param("faults", 8) + 1, "fault"); fail1 = (int)k - 1; fail2 = -1; if (k && vf_bool("second")) fail2 = fail1 + 1; }
static void texts(const R &r) { for (auto it = r.errors().begin(); it != r.errors().end(); ++it) { bool a = !strncmp(*it, "redirect error C5(0): out: input/output error (", 47), b = !strncmp(*it, "redirect error C22(0): out: input/output error (", 48); vf_check(a | b, "an error names the target and its reason"); } }
VF_ENTRY(redirect_history) {
  reset(); uint64_t live0 = vf_live_allocs(); long ops = vf_param("ops", 3); unsigned m = vf_choose(2, "mode"); R::Mode mode = m == 0 ? R::Mode::Rewrite : R::Mode::Append;
  bool old = vf_bool("exists"); if (old) addOld(0, vf_choose(3, "old_size"));
  arm();
  {
    R r(1, "out", mode); Ref f{faults == 0, m == 0 ? 0 : files[0].size, 0, 0}; f.diff = f.start;
    vf_check(r.mayRedirected() && r.fileName() == "out", "redirection is active");
    vf_check(r.hasErrors() == (errs(r) != 0), "errors are reported");
    if (f.ok) { vf_check(!r.hasErrors(), "no error is reported if nothing fails"); vf_check(!badFd(1) && ofds[fdt[1]].file == 0 && openStreams() == 1, "the descriptor is redirected to the target"); vf_check(m != 0 || files[0].size == 0, "the target is rewritten"); vf_reach("redirected"); }
    else { vf_check(errs(r) == faults, "every failure is reported"); texts(r); vf_check(openStreams() == 0, "a target is closed after a failure"); vf_check(!badFd(1), "the descriptor is kept"); vf_reach("refused"); }
    for (long i = 0; i < ops; ++i) step(r, f, false);
    if (faults > recovered) vf_check(r.hasErrors(), "failures are reported"); texts(r);
  }
  vf_check(openStreams() == 0 && openFds() == 3, "every target is closed once");
  vf_check(!badFd(1), "the redirected descriptor stays open"); if (faults == 0) { vf_check(ofds[fdt[1]].file == 0, "and redirected"); long s = files[0].size; wr(1, 7); vf_check(files[0].size == s + 1 && files[0].b[s] == 7, "output still reaches the target"); }
  vf_check(vf_live_allocs() == live0, "storage is released");
}
VF_ENTRY(redirect_input) {
  reset(); bool e = vf_bool("exists"); if (e) addOld(0, vf_choose(3, "old_size")); long sz = files[0].size; arm();
  { R r(0, "out", R::Mode::Read); if (faults == 0) { vf_check(!r.hasErrors() && ofds[fdt[0]].file == 0 && files[0].size == sz, "input is redirected, the source is kept"); unsigned n = 0; long k = vf_choose(sz + 1, "read"); for (; n < k; ++n) { int c = get(fdt[0]); vf_check(c == files[0].b[n], "input is read from the file"); } unsigned ft = faults; bool d = r.isDiff(); if (ft == faults) vf_check(d == (k > 0), "read data is noticed"); vf_reach("input"); }
    else { vf_check(errs(r) == faults && openStreams() == 0, "failures are reported"); vf_reach("refused"); } vf_check(files[0].size == sz, "the source is not changed"); }
  vf_check(openStreams() == 0 && openFds() == 3, "the source is closed once");
}
// data which is longer than any internal buffer
VF_ENTRY(redirect_long) {
  reset(); static const unsigned lens[] = {1, 99, 100, 101, 128, 198, 199, 200, 201, 255, 256, 257, 300, 512, 1025}; unsigned n = lens[vf_choose(15, "length")]; static const unsigned befores[] = {0, 3, 130, 300}; unsigned before = befores[vf_choose(4, "before")];
  unsigned char c[3]; for (auto &x : c) x = vf_any<unsigned char>("c"); unsigned at[3] = {0, n / 2, n - 1};
  R r(1, "out"); for (unsigned i = 0; i < before; ++i) wr(1, 'b'); if (before) r.setDiffPos();
  for (unsigned i = 0; i < n; ++i) { unsigned char x = (unsigned char)('0' + i % 10); for (unsigned k = 0; k < 3; ++k) if (at[k] == i) x = c[k]; wr(1, x); }
  std::string d = r.diff(); vf_check(d.size() == n, "everything since the position is returned");
  for (unsigned i = 0; i < n; ++i) vf_check((unsigned char)d[i] == files[0].b[before + i], "changes are returned as they are"); vf_reach("long");
  vf_check(r.isDiff(), "reading does not reset the position"); std::string e = r.diff(); vf_check(e == d, "changes are returned again"); r.setDiffPos(); vf_check(!r.isDiff() && r.diff().empty(), "nothing since the position"); r.resetDiffPos(); vf_check(r.isDiff() && r.diff().size() == n + before, "everything since the redirection");
}
// positions go along with a moved redirection
VF_ENTRY(redirect_positions) {
  reset(); addOld(0, 2); { R a(1, "out", vf_bool("append") ? R::Mode::Append : R::Mode::Rewrite); long start = files[0].size; unsigned n = vf_choose(3, "before"), m = vf_choose(3, "after"), how = vf_choose(4, "how"); for (unsigned i = 0; i < n; ++i) wr(1, vf_any<unsigned char>("b")); bool set = vf_bool("set"); if (set) a.setDiffPos(); long pos = set ? files[0].size : start; R other, second; R *r = &a;
    switch (how) { case 0: other = std::move(a); r = &other; break; case 1: second = R(2, "other"); wr(2, 1); second.setDiffPos(); second = std::move(a); r = &second; break; case 2: { R t(std::move(a)); other = std::move(t); r = &other; break; } case 3: std::swap(a, other); r = &other; break; }
    vf_check(r->isDiff() == (files[0].size != pos), "the position goes along"); for (unsigned i = 0; i < m; ++i) wr(1, vf_any<unsigned char>("c")); for (int k = 0; k < 2; ++k) { std::string d = r->diff(); vf_check((long)d.size() == files[0].size - pos, "changes since the position"); for (long i = 0; i < (long)d.size(); ++i) vf_check((unsigned char)d[i] == files[0].b[pos + i], "changes are returned as they are"); r->resetDiffPos(); pos = start; }
    vf_check(!r->hasErrors(), "no error is reported if nothing fails"); vf_reach("moved"); }
  vf_check(openStreams() == 0 && openFds() == 3, "every target is closed once");
}
VF_ENTRY(redirect_move) {
  reset(); uint64_t live0 = vf_live_allocs(); arm();
  {
    unsigned how = vf_choose(6, "how"); R none; vf_check(!none.mayRedirected() && !none.hasErrors() && !none.isDiff(), "nothing is redirected");
    R a(1, "out"); bool aok = faults == 0; uint64_t ea = errs(a); unsigned f0 = faults; R b; bool bok = false;
    if (how < 4) { if (how >= 2) { b = R(2, "other"); bok = faults == f0; } }
    switch (how) {
    case 0: { R c(std::move(a)); vf_check(c.mayRedirected() && errs(c) == ea && c.fileName() == "out" && !a.mayRedirected() && !a.hasErrors(), "redirection is moved"); vf_check(!a.isDiff(), "nothing is redirected"); if (aok) { wr(1, 5); unsigned ft = faults; bool d = c.isDiff(); vf_check(d == (ft == faults), "moved redirection works"); } vf_check(openStreams() == (aok ? 1u : 0u), "the target stays open"); vf_reach("moved"); break; }
    case 1: case 2: { R &x = (b = std::move(a)); vf_check(&x == &b && b.mayRedirected() && b.fileName() == "out" && !a.mayRedirected(), "redirection is moved"); vf_check(openStreams() == (aok ? 1u : 0u), "the former target is closed"); if (aok) { wr(1, 5); unsigned ft = faults; bool d = b.isDiff(); vf_check(d == (ft == faults), "moved redirection works"); } (void)bok; vf_reach("assigned"); break; }
    case 3: { b = R(); vf_check(!b.mayRedirected() && openStreams() == (aok ? 1u : 0u), "redirection ends"); break; }
    case 4: { R &s = a; a = std::move(s); vf_check(a.mayRedirected() && openStreams() == (aok ? 1u : 0u), "assignment to itself changes nothing"); break; }
    case 5: { std::swap(a, b); vf_check(b.mayRedirected() && !a.mayRedirected() && openStreams() == (aok ? 1u : 0u), "exchange"); break; }
    }
  }
  vf_check(openStreams() == 0 && openFds() == 3, "every target is closed once"); vf_check(vf_live_allocs() == live0, "storage is released");
}
// memory may be exhausted as well
VF_ENTRY(redirect_oom) {
  reset(); uint64_t live0 = vf_live_allocs(); bool app = vf_bool("append"); if (app) addOld(0, 2); arm();
  {
    R r; bool made = tight([&] { r = R(1, "out", app ? R::Mode::Append : R::Mode::Rewrite); });
    if (!made) { vf_check(openStreams() == 0, "a target is closed if the redirection is not created"); vf_check(!badFd(1), "the descriptor is kept"); vf_reach("not_created"); }
    else if (faults == 0) { armed = false; unsigned n = vf_param("n", 130); unsigned char c = vf_any<unsigned char>("c"); for (unsigned i = 0; i < n; ++i) wr(1, i == n / 2 ? c : 'a'); std::string d; long start = app ? 2 : 0;
      arm(); bool got = tight([&] { d = r.diff(); }); armed = false;
      if (!got && !faults) { vf_check(ofds[fdt[1]].off == files[0].size, "further output follows"); vf_reach("no_memory"); }
      if (!faults) { wr(1, 'z'); vf_check(files[0].size == start + n + 1 && files[0].b[start + n] == 'z' && files[0].b[start + n / 2] == c, "nothing which has been written is lost"); d = r.diff(); vf_check(d.size() == n + 1, "changes are returned as soon as there is memory"); vf_reach("again"); } }
  }
  vf_check(openStreams() == 0 && openFds() == 3, "every target is closed once"); vf_check(vf_live_allocs() == live0, "storage is released");
}
