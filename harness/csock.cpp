// The network server over a scripted system: every call may fail, data arrives and leaves in pieces of any size,
// descriptors are reused as soon as they are closed, and connections run in threads which are scheduled by choices.
#include "thr_on.h"
#include "thr_off.h"
#include <arpa/inet.h>
#include <cassert>
#include <csignal>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <set>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <bcl/Socket.h>
#include <bcl/utility.h>
using vfthr::peek; using vfthr::poke; typedef std::string Str;
enum { Lis = 9, Fd0 = 10, NFD = 8, NConn = 4, NTid = 6 };
struct Rec { Str in, out; unsigned char tid = 0; bool eof = false, recvError = false, closed = false, closeError = false, sendError = false, inCallback = false, refused = false, noThread = false; unsigned recvs = 0, replies = 0, first = 0, sendErrors = 0; uint16_t port = 0, sport = 0; };
struct Log { Str a, b, late, want; unsigned closedA = 0, closedB = 0, on[32] = {}; bool ok = true, served = false, lateSet = false; const void *self = nullptr; };
static Rec *recs; static Log *logs; static int nRec; static unsigned char nActive;
static unsigned char fdRec[NFD]; // connection of an open descriptor (1..), 0: closed, 255: listening socket
static unsigned char faults, partials; static int failAt, dataMax, connMax, maxNumber, steps, mode, wantPort, nReplies = 1; static unsigned acceptErrors; static bool closeFails, lisClosed, started, hostUsed;
static int zero; // descriptor 0 is that of the first connection (1) or listens (2)
static int num(int i) { return zero && i == (zero == 1 ? 1 : 0) ? 0 : Lis + i; }
static int idx(int fd) { for (int i = 0; i < NFD; ++i) if (num(i) == fd) return i; return -1; }
static bool fault(const char *n) { if (!peek(faults) || !vf_choose(2, n)) return false; poke(faults, peek(faults) - 1); return true; }
static bool startFault() { return failAt == steps++; }
static Rec &of(int fd) { vf_check(idx(fd) >= 0, "a descriptor of a connection"); unsigned k = peek(fdRec[idx(fd)]); vf_check(k && k != 255, "an open descriptor of a connection is used"); Rec &r = recs[k - 1]; if (!peek(r.tid)) poke(r.tid, (unsigned char)vf_thread_self()); vf_check(peek(r.tid) == vf_thread_self(), "a descriptor is used by its thread"); return r; }
static Log &me() { vf_check(vf_thread_self() < NTid, "number of threads"); return logs[vf_thread_self()]; }
static void delivered(Rec &r) { if (mode == 3) return; Log &l = me(); vf_check(l.a == r.in && (mode == 1 || l.b == r.in), "callbacks get exactly the received bytes"); if (mode == 1) vf_check(r.sendError || r.out == l.want, "a reply is sent completely"); else vf_check(r.out.empty(), "nothing else is sent"); }
static void split(const char *b, unsigned n); static void finishTalk();
static void finish(Rec &r, Log &l) {
  vf_check(r.closed, "the descriptor of every connection is closed"); vf_check(l.served, "the server is created for a connection"); vf_check(l.closedA == 1 && l.closedB == 1, "the end of a connection is reported once");
  vf_check(l.a == r.in && (mode == 1 || l.b == r.in), "callbacks get exactly the received bytes");
  if (mode == 2 && r.recvs) vf_check(l.lateSet && r.in.size() >= l.late.size() && r.in.compare(r.in.size() - l.late.size(), Str::npos, l.late) == 0 && l.late.size() >= r.in.size() - r.first, "a listener which is added later gets the rest");
  bool bad = r.recvError || r.closeError || r.sendError; if (!r.sendError || r.inCallback) vf_check(l.ok == !bad, "the end of a connection is reported as a failure iff a call failed");
  vf_check(l.on[9] == (r.recvError ? 1u : 0u) && l.on[14] == r.recvs, "receiving is reported"); vf_check(l.on[11] == (r.closeError ? 1u : 0u) && l.on[16] == (r.closeError ? 0u : 1u), "closing is reported once");
  vf_check(l.on[10] == r.sendErrors, "a failed reply is reported"); vf_check(l.on[12] == 0 && l.on[13] == 0 && l.on[8] == 0, "nothing else is reported");
  if (r.closeError) vf_reach("close_error"); if (r.recvError) vf_reach("receive_error"); if (r.sendError) vf_reach("send_error"); if (!bad && r.recvs > 1) vf_reach("several"); if (!r.sendError && r.replies) vf_reach("replied");
}
static hostent *theHost; static char hostName[8]; static unsigned char hostAddr[4]; static char *hostAddrs[2];
static int longData; static unsigned char shorts = 2; // pieces longer than small counters
static unsigned pieceOf(unsigned m, bool none, const char *nm) {
  if (!longData) return none ? vf_choose(m + 1, nm) : 1 + vf_choose(m, nm);
  static const unsigned L[] = {0, 1, 127, 128, 255, 256, 300}; if (none && !peek(shorts)) return vf_choose(2, nm) ? m : 0; unsigned k = vf_choose(none ? 8 : 7, nm); if (!none) ++k; if (none && k && k < 7) poke(shorts, peek(shorts) - 1); unsigned c = k == 7 ? m : L[k]; if (c > m || (k < 7 && c == m && m)) vf_end_path(); return c;
}
extern "C" {
hostent *gethostbyname(const char *n) { vf_check(!strcmp(n, "host"), "name of the host"); hostUsed = true; if (startFault()) return nullptr; hostAddr[0] = 1; hostAddr[3] = 9; hostAddrs[0] = (char *)hostAddr; hostAddrs[1] = nullptr; static hostent h; h.h_addr_list = hostAddrs; h.h_length = 4; h.h_addrtype = AF_INET; return &h; }
int socket(int d, int t, int p) { vf_check(d == AF_INET && t == SOCK_STREAM && (p == 0 || p == 6), "kind of a socket"); if (startFault()) return -1; poke(fdRec[0], 255); return num(0); }
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) { vf_check(fd == num(0) && n == sizeof(int) && *(const int *)v, "options of a socket"); return startFault() ? -1 : 0; }
int bind(int fd, const sockaddr *a, socklen_t n) { vf_check(fd == num(0) && n == sizeof(sockaddr_in), "address of the server"); sockaddr_in s; memcpy(&s, a, 8); vf_check(s.sin_family == AF_INET && (unsigned char)(s.sin_port >> 8) == (wantPort & 255) && (s.sin_port & 255) == wantPort >> 8, "port of the server"); unsigned char w[4] = {0, 0, 0, 0}; vf_check(!memcmp(&s.sin_addr, hostUsed ? hostAddr : w, 4), "address of the server"); return startFault() ? -1 : 0; }
int listen(int fd, int n) { vf_check(fd == num(0) && n > 0, "listening"); bool f = startFault(); started = !f; return f ? -1 : 0; }
int getsockname(int fd, sockaddr *a, socklen_t *n) {
  vf_check(*n >= sizeof(sockaddr_in), "room for an address"); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = 1; *n = sizeof s;
  if (fd == num(0)) { if (startFault()) return -1; s.sin_port = (uint16_t)((wantPort & 255) << 8 | wantPort >> 8); memcpy(a, &s, sizeof s); return 0; }
  vf_check(idx(fd) >= 0, "a descriptor"); unsigned k = peek(fdRec[idx(fd)]); vf_check(k && k != 255, "an open descriptor"); if (fault("getsockname")) { recs[k - 1].refused = true; return -1; } s.sin_port = recs[k - 1].sport; memcpy(a, &s, sizeof s); return 0;
}
int accept(int fd, sockaddr *a, socklen_t *n) {
  vf_check(fd == num(0) && started && !lisClosed, "accepting by the listening socket"); vf_check(*n >= sizeof(sockaddr_in), "room for an address"); vf_sched();
  vf_check(!maxNumber || peek(nActive) < maxNumber, "the maximum number of connections is respected");
  if (nRec == connMax) {
    int served = 0; unsigned refused = 0, lost = 0; for (int i = 0; i < nRec; ++i) if (recs[i].noThread) ++lost; else if (recs[i].refused) ++refused; else ++served;
    for (int t = 1; t <= served; ++t) vfthr::joinTid(t);
    Log &l = logs[0]; vf_check((l.on[13] == (unsigned)served || l.on[13] == served + lost) && l.on[3] == refused && (l.on[8] == acceptErrors || l.on[8] == acceptErrors + lost) && l.on[12] == 1, "events of the server are reported");
    for (int i = 0; i < nRec; ++i) if (!recs[i].refused) { vf_check(recs[i].tid, "every connection is served"); if (mode == 3) finishTalk(); else finish(recs[i], logs[recs[i].tid]); } else vf_check(recs[i].closed, "a refused connection is closed");
    vf_reach("idle"); vf_end_path();
  }
  if (fault("accept")) { ++acceptErrors; vf_reach("accept_error"); return -1; }
  int f = 1; while (peek(fdRec[f])) ++f; Rec &r = recs[nRec++]; poke(fdRec[f], (unsigned char)nRec); poke(nActive, peek(nActive) + 1);
  sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = 2; r.port = vf_any<uint16_t>("clientport"); r.sport = vf_any<uint16_t>("serverport"); s.sin_port = r.port; memcpy(a, &s, sizeof s); *n = sizeof s; return num(f);
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
  vf_check(!(flags & (MSG_OOB | MSG_PEEK | MSG_DONTWAIT | MSG_TRUNC | MSG_ERRQUEUE)), "data is taken as it comes");
  vf_sched(); Rec &r = of(fd); vf_check(!r.eof && !r.recvError, "nothing is received after the end"); vf_check(!(r.sendError && r.inCallback), "a connection is closed when a reply fails"); delivered(r);
  size_t left = dataMax - r.in.size(), m = n < left ? n : left; unsigned c = pieceOf(m, true, "recv"); if (!c && fault("recvfails")) { r.recvError = true; return -1; } if (!c) { r.eof = true; return 0; }
  for (unsigned i = 0; i < c; ++i) { char x = longData && i && i + 1 < c ? (char)(r.in.size() * 7 + i) : mode == 3 ? (vf_choose(2, "delimiter") ? '$' : 'a' + r.in.size()) : vf_any<char>("c"); ((char *)b)[i] = x; r.in += x; } if (!r.recvs++) r.first = c; if (mode == 3) split((const char *)b, c); return c;
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
  vf_check(!(flags & (MSG_OOB | MSG_DONTWAIT)), "data is sent as it is");
  vf_sched(); Rec &r = of(fd); if (fault("sendfails")) { r.sendError = true; ++r.sendErrors; return -1; } size_t c = n; if (n > 1 && peek(partials) && vf_choose(2, "partly")) { poke(partials, peek(partials) - 1); c = pieceOf(n - 1, false, "sent"); vf_reach("partly"); } r.out.append((const char *)b, c); return c;
}
int close(int fd) {
#ifdef VF_NATIVE
  if (idx(fd) < 0 || !recs) return syscall(SYS_close, fd);
#endif
  vf_sched(); if (fd == num(0)) { vf_check(!lisClosed && peek(fdRec[0]) == 255, "the listening socket is closed once"); lisClosed = true; return closeFails ? -1 : 0; }
  vf_check(idx(fd) > 0, "a descriptor"); unsigned k = peek(fdRec[idx(fd)]); vf_check(k, "an open descriptor is closed"); Rec &r = recs[k - 1]; vf_check(!r.closed, "a descriptor is closed once");
  if (vf_thread_self()) { of(fd); delivered(r); } r.closed = true; poke(nActive, peek(nActive) - 1); poke(fdRec[idx(fd)], 0); vf_sched(); if (fault("closefails")) { r.closeError = true; return -1; } return 0;
}
#if !defined(VF_NATIVE) && !defined(htons)
uint16_t htons(uint16_t x) noexcept { return (uint16_t)(x << 8 | x >> 8); }
uint16_t ntohs(uint16_t x) noexcept { return (uint16_t)(x << 8 | x >> 8); }
uint32_t htonl(uint32_t x) noexcept { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) noexcept { return __builtin_bswap32(x); }
#endif
char *inet_ntoa(in_addr a) noexcept { static char t[2][4]; char *r = t[a.s_addr == 2]; __atomic_store_n(r, a.s_addr == 2 ? 'C' : 'S', __ATOMIC_RELAXED); return r; }
}
static std::vector<Str> *all; static unsigned rounds; static bool ended; static unsigned answered, evaluated;
static void talk(const bcl::Socket<Str> *s);
template <> void bcl::createServer<Str>(const bcl::Socket<Str> *s) {
  Log *l = &me(); vf_check(!l->served, "the server is created once"); l->served = true; if (mode == 3) { talk(s); return; }
  if (mode == 1) {
    s->receive([l, s](const Str &m) { l->a += m; for (int k = 0; k < nReplies; ++k) { Str q = m + (k ? "?" : "!"); l->want += q; unsigned before = l->on[15], errs = l->on[10]; s->send(q); vf_check(l->on[15] - before + l->on[10] - errs == 1, "every reply is reported"); }
      for (int i = 0; i < NConn; ++i) if (peek(recs[i].tid) == vf_thread_self()) { recs[i].replies += nReplies; if (recs[i].sendError) recs[i].inCallback = true; } });
  } else {
    s->receive([l, s](const Str &m) { vf_check(l->a.size() == l->b.size(), "listeners are called in order"); l->a += m; if (mode == 2 && !l->lateSet) { l->lateSet = true; for (int i = 0; i < 3; ++i) s->receive([l, i](const Str &m) { if (!i) l->late += m; }); } });
    s->receive([l](const Str &m) { l->b += m; vf_check(l->a.size() == l->b.size(), "listeners are called in order"); });
  }
  s->closed([l](bool ok) { ++l->closedA; l->ok = ok; }); s->closed([l](bool ok) { ++l->closedB; vf_check(l->closedA == l->closedB && l->ok == ok, "listeners are called in order"); });
}
// a server which talks over an in-process connection
#include "thr_on2.h"
#include <bcl/IntrusiveConnection.h>
#include VF_CSOCKET
#include "thr_off.h"
static void onStatus(bcl::net::SocketStatus s, const bcl::net::Connection &c) {
  Log &l = me(); vf_check((unsigned)s < 32, "status"); ++l.on[(unsigned)s];
  if (vf_thread_self()) { for (int i = 0; i < NConn; ++i) if (peek(recs[i].tid) == vf_thread_self()) { vf_check(c.getClientPort() == (uint16_t)(recs[i].port << 8 | recs[i].port >> 8) && c.getServerPort() == (uint16_t)(recs[i].sport << 8 | recs[i].sport >> 8), "ports of a connection"); vf_check(c.getClientAddress() == "C" && c.getServerAddress() == "S", "addresses of a connection"); } }
  else if (s == bcl::net::SocketStatus::Listen) vf_check(started && c.getServerPort() == wantPort && c.getServerAddress() == "S" && !c.isActive(), "address of the server");
  else if (s == bcl::net::SocketStatus::Accept) { Rec &r = recs[nRec - 1]; vf_check(c.getClientPort() == (uint16_t)(r.port << 8 | r.port >> 8) && c.getClientAddress() == "C" && c.getServerAddress() == "S", "address of a client"); }
}
static bool noThread() { if (!fault("thread")) return false; vf_check(nRec > 0, "threads serve connections"); recs[nRec - 1].refused = recs[nRec - 1].noThread = true; vf_reach("no_thread"); return true; }
static void init() { vfthr::asyncFails = vf_param("threads", 1) ? nullptr : noThread; recs = new Rec[NConn]; logs = new Log[NTid]; nRec = 0; wantPort = 0x1234; failAt = -1; steps = 0; vfthr::spuriousLeft = 0; zero = vf_param("zero", 0); }
// the requests of a chunk
static void split(const char *b, unsigned n) { Str cur; for (unsigned i = 0; i < n; ++i) if (b[i] == '$') { all->push_back(cur); cur.clear(); } else cur += b[i]; if (!cur.empty()) all->push_back(cur); }
static void serve(bcl::IntrusiveConnection c) { bool more = true; for (unsigned i = 0; i < rounds && more; ++i) { more = c.answer([](const Str &q) { ++evaluated; return "(" + q + ")"; }); answered += more; } ended = true; }
static void talk(const bcl::Socket<Str> *s) { bcl::IntrusiveConnection::connect(s, '$', serve); }
static void finishTalk() {
  Rec &r = recs[0]; vfthr::joinTid(2); vf_check(ended, "the server learns that the connection is closed"); vf_check(r.closed, "the descriptor of every connection is closed");
  unsigned n = rounds < all->size() ? rounds : (unsigned)all->size(); vf_check(evaluated == n && answered == n, "requests are answered once"); if (n < all->size()) vf_reach("rejected"); if (n) vf_reach("replied");
  Str want; for (unsigned i = 0; i < all->size(); ++i) want += (i < rounds ? "(" + (*all)[i] + ")" : Str("REJECT")) + "$"; vf_check(r.sendError || r.out == want, "every request gets one response, in order and completely");
}
VF_ENTRY(csock_dialog) {
  init(); mode = 3; connMax = 1; dataMax = vf_param("bytes", 3); faults = vf_param("faults", 1); partials = vf_param("partials", 1); rounds = vf_choose(vf_param("rounds", 2) + 1, "rounds"); ended = false; evaluated = answered = 0; all = new std::vector<Str>;
  bcl::net::startServer("", wantPort, 0, onStatus, vf_param("buffer", 3)); vf_check(false, "a server does not stop");
}
VF_ENTRY(csock_serve) {
  init(); connMax = vf_param("conns", 1); dataMax = vf_param("bytes", 3); faults = vf_param("faults", 1); partials = vf_param("partials", 1); maxNumber = vf_param("max", 0); mode = vf_param("mode", 0); nReplies = vf_param("replies", 1); longData = vf_param("long", 0); shorts = vf_param("shorts", 1);
  unsigned buf = vf_param("buffer", 2); if (buf) bcl::net::startServer("", wantPort, maxNumber, onStatus, buf); else bcl::net::startServer("", wantPort, maxNumber, onStatus); vf_check(false, "a server does not stop");
}
VF_ENTRY(csock_start) {
  bool named; uint64_t live0 = vf_live_allocs();
  { init(); connMax = 0; faults = 0; dataMax = 0; failAt = vf_choose(7, "step"); closeFails = vf_bool("closefails"); named = vf_bool("named"); wantPort = vf_in<uint16_t>(1, 65535, "port");
    if (failAt >= (named ? 6 : 5)) failAt = -1; int at = failAt;
    bcl::net::startServer(named ? "host" : "", wantPort, 0, onStatus); static const unsigned st[] = {2, 4, 5, 6, 3, 7}; Log &l = logs[0]; unsigned k = at + (named ? 0 : 1);
    vf_check(at >= 0 && k < 6, "a server does not stop"); unsigned n = 0; for (unsigned i = 0; i < 32; ++i) n += l.on[i]; vf_check(l.on[st[k]] == 1, "the failure is reported"); vf_check(n == (k > 1 ? 2u : 1u) && (k < 2 || l.on[closeFails ? 11 : 16] == 1), "closing is reported"); vf_check(lisClosed == (k > 1), "the descriptor is closed once"); vf_reach("failed"); delete[] recs; delete[] logs; recs = nullptr; }
  vf_check(vf_live_allocs() == live0, "everything is released");
}
