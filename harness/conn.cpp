#include "thr_on.h"
#include <bcl/IntrusiveConnection.h>
#include "thr_off.h"
typedef bcl::IntrusiveConnection Conn;
struct Fake : bcl::Socket<std::string> {
  mutable std::vector<std::string> sent; mutable ReceiveCallback onReceive; mutable ClosedCallback onClosed; mutable unsigned regs = 0;
  void send(const std::string &m) const override { sent.push_back(m); }
  void receive(const ReceiveCallback &f) const override { onReceive = f; ++regs; }
  void closed(const ClosedCallback &f) const override { onClosed = f; ++regs; }
};
struct Log { std::vector<std::string> got; unsigned answered = 0, refused = 0; bool done = false; };
static std::string reply(const std::string &q) { return "(" + q + ")"; }
static void rounds(Conn &c, unsigned n, Log *l) {
  for (unsigned i = 0; i < n; ++i) {
    size_t before = l->got.size(); bool ok = c.answer([l](const std::string &q) { l->got.push_back(q); return reply(q); });
    vf_check(l->got.size() == before + ok, "a request is evaluated iff it is answered"); if (!ok) { ++l->refused; break; } ++l->answered;
  }
}
// the connection is closed when it is destroyed at the end
static void serve(Conn c, unsigned n, Log *l, int how) {
  if (how == 1) { Conn d(std::move(c)); rounds(d, n, l); vf_check(!c.answer([](const std::string &q) { return q; }), "a moved connection is not used"); } else rounds(c, n, l);
  if (how == 2 && l->refused) vf_check(!c.answer([](const std::string &q) { return q; }), "a closed connection stays closed");
  l->done = true;
}
static const char *const texts[] = {"a$", "a$b$", "a$b", "ab", "$", "", "$$c", "a$bc$$"};
static void requests(const char *t, std::vector<std::string> &r) { std::string cur; for (; *t; ++t) if (*t == '$') { r.push_back(cur); cur.clear(); } else cur += *t; if (!cur.empty()) r.push_back(cur); }
static void check(const Fake &s, const Log &l, const std::vector<std::string> &all, unsigned n) {
  unsigned want = n < all.size() ? n : (unsigned)all.size();
  vf_check(s.sent.size() == all.size(), "every request gets one response");
  for (unsigned i = 0; i < all.size(); ++i) vf_check(s.sent[i] == (i < want ? reply(all[i]) : std::string("REJECT")) + "$", "requests are answered in order while the server wants them and rejected afterwards");
  vf_check(l.got.size() == want, "the server gets every request"); for (unsigned i = 0; i < want; ++i) vf_check(l.got[i] == all[i], "the server gets requests in order");
}
VF_ENTRY(conn_dialog) {
  uint64_t live0 = vf_live_allocs(); vfthr::spuriousLeft = vf_param("spurious", 0);
  {
    Fake s; Log l; std::vector<std::string> all; unsigned n = vf_choose(vf_param("rounds", 3) + 1, "rounds"); int how = vf_choose(vf_param("hows", 3), "how");
    Conn::connect(&s, '$', serve, n, &l, how); vf_check(s.regs == 2, "listeners are registered once");
    long msgs = vf_param("msgs", 2);
    for (long i = 0; i < msgs; ++i) { const char *t = texts[vf_choose(vf_param("texts", 8), "text")]; requests(t, all); s.onReceive(std::string(t)); }
    s.onClosed(vf_bool("normally")); vfthr::joinTid(1);
    vf_check(l.done, "the server ends"); check(s, l, all, n); vf_check(l.answered == l.got.size() && l.refused == (n > all.size() ? 1u : 0u), "the server learns that the connection is closed"); vf_reach(l.refused ? "refused" : "ended"); if (all.size() > n) vf_reach("rejected");
    if (n && !all.empty()) vf_reach("answered");
  }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// the connection of one client is replaced by the connection of another one
static Conn *slot;
static void keep(Conn c) { slot = new Conn(std::move(c)); }
static void take(Conn c, unsigned n, Log *l) { Conn &r = (*slot = std::move(c)); if (vf_bool("self")) r = std::move(r); vf_check(&r == slot, "assignment returns its target"); rounds(*slot, n, l); delete slot; slot = nullptr; l->done = true; }
VF_ENTRY(conn_assign) {
  uint64_t live0 = vf_live_allocs(); vfthr::spuriousLeft = vf_param("spurious", 0);
  {
    Fake s, z; Log l; std::vector<std::string> all, none; unsigned n = vf_choose(3, "rounds"); slot = nullptr;
    Conn::connect(&s, '$', keep); vfthr::joinTid(1); Conn::connect(&z, '$', take, n, &l);
    bool first = vf_bool("first"); if (first) s.onReceive("x$");
    const char *t = texts[vf_choose(2, "text")]; requests(t, all); z.onReceive(t); if (!first) s.onReceive("x$"); s.onClosed(true); z.onClosed(true); vfthr::joinTid(2);
    vf_check(l.done, "the server ends"); check(z, l, all, n); vf_check(s.sent.size() == 1 && s.sent[0] == "REJECT$", "the replaced connection is closed"); vf_reach("assigned");
  }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// a delimiter which is not used by clients
VF_ENTRY(conn_plain) {
  uint64_t live0 = vf_live_allocs();
  { Fake s; Log l; Conn::connect(&s, '\0', serve, 1u, &l, 0); unsigned n = vf_choose(3, "length") + 1; std::string q; for (unsigned i = 0; i < n; ++i) { char c = vf_any<char>("c"); vf_assume(c != 0); q += c; } s.onReceive(q); s.onReceive(q); s.onClosed(true); vfthr::joinTid(1);
    vf_check(l.got.size() == 1 && l.got[0] == q, "a request is passed as a whole"); vf_check(s.sent.size() == 2, "one response per request"); std::string a = reply(q); vf_check(s.sent[0].compare(0, a.size(), a) == 0 && s.sent[1].compare(0, 6, "REJECT") == 0, "responses"); vf_reach("plain"); }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// every text and every delimiter
VF_ENTRY(conn_text) {
  uint64_t live0 = vf_live_allocs();
  {
    Fake s; Log l; unsigned n = vf_choose(3, "rounds"); char d = vf_any<char>("delimiter"); Conn::connect(&s, d, serve, n, &l, 0);
    unsigned len = vf_choose(vf_param("n", 3) + 1, "length"); std::string q, cur; std::vector<std::string> all; for (unsigned i = 0; i < len; ++i) { char c = vf_any<char>("c"); q += c; if (c == d) { all.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) all.push_back(cur);
    s.onReceive(q); s.onClosed(true); vfthr::joinTid(1); unsigned want = n < all.size() ? n : (unsigned)all.size();
    vf_check(l.got.size() == want && s.sent.size() == all.size(), "every request gets one response");
    for (unsigned i = 0; i < all.size(); ++i) { std::string a = i < want ? reply(all[i]) : std::string("REJECT"); vf_check(s.sent[i].compare(0, a.size(), a) == 0 && (d ? s.sent[i].size() == a.size() + 1 && s.sent[i].back() == d : s.sent[i].size() <= a.size() + 1), "a response is followed by the delimiter"); if (i < want) vf_check(l.got[i] == all[i], "the server gets the text of a request"); }
    if (all.size() > 1) vf_reach("joined"); vf_reach("text");
  }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// many requests in one message, long requests, many messages: more than small counters can hold
VF_ENTRY(conn_long) {
  uint64_t live0 = vf_live_allocs();
  {
    Fake s; Log l; static const unsigned N[] = {1, 17, 270}; unsigned k = N[vf_choose(3, "requests")], size = N[vf_choose(3, "size")], n = vf_choose(2, "rejected") ? k / 2 : k + 1; bool joined = vf_bool("joined"); if (k * size > 20000) vf_end_path(); Conn::connect(&s, '$', serve, n, &l, 0);
    char c = vf_any<char>("c"); vf_assume(c != '$'); std::vector<std::string> all; std::string q; for (unsigned i = 0; i < k; ++i) { std::string r(size, c); r[size / 2] = (char)('A' + i % 50); all.push_back(r); q += r + '$'; if (!joined || i + 1 == k) { s.onReceive(q); q.clear(); } }
    s.onClosed(true); vfthr::joinTid(1); check(s, l, all, n); vf_check(l.done && s.sent.size() == k, "every request gets one response"); for (unsigned i = 0; i < k; ++i) vf_check(s.sent[i] == (i < n ? reply(all[i]) : std::string("REJECT")) + "$", "responses in order"); vf_reach("long");
  }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// the function of a server may throw: the client must not wait for a response any more
static void failing(Conn c, unsigned n, Log *l, int) {
  try { Conn d(std::move(c)); for (unsigned i = 0; i <= n; ++i) if (!d.answer([&](const std::string &q) { l->got.push_back(q); if (i == n) throw 5; return reply(q); })) { ++l->refused; break; } }
  catch (int x) { vf_check(x == 5 && l->got.size() == n + 1, "the exception is passed on"); vf_reach("thrown"); }
  vf_check(!c.answer([](const std::string &q) { return q; }), "a moved connection is not used"); l->done = true;
}
VF_ENTRY(conn_throw) {
  uint64_t live0 = vf_live_allocs(); vfthr::spuriousLeft = vf_param("spurious", 0);
  {
    Fake s; Log l; std::vector<std::string> all; unsigned n = vf_choose(vf_param("rounds", 2) + 1, "rounds"); Conn::connect(&s, '$', failing, n, &l, 0); long msgs = vf_param("msgs", 2);
    for (long i = 0; i < msgs; ++i) { const char *t = texts[vf_choose(vf_param("texts", 3), "text")]; requests(t, all); s.onReceive(std::string(t)); }
    s.onClosed(true); vfthr::joinTid(1); unsigned want = n < all.size() ? n : (unsigned)all.size(); vf_check(l.done && s.sent.size() == all.size(), "every request gets one response");
    for (unsigned i = 0; i < all.size(); ++i) vf_check(s.sent[i] == (i < want ? reply(all[i]) : std::string("REJECT")) + "$", "requests are rejected if the server has failed"); vf_check(l.got.size() == (n < all.size() ? n + 1 : all.size()) && l.refused == (n >= all.size() ? 1u : 0u), "every request is evaluated at most once");
  }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
// there may be no thread for a server
VF_ENTRY(conn_no_thread) {
  uint64_t live0 = vf_live_allocs();
  { Fake s; Log l; vfthr::noThreads = true; bool thrown = false; try { Conn::connect(&s, '$', serve, 1u, &l, 0); } catch (std::exception &) { thrown = true; } vfthr::noThreads = false; vf_check(thrown && s.regs == 0 && !l.done, "a failure is reported and nobody listens to the socket"); vf_reach("no_thread"); }
  vf_check(vf_live_allocs() == live0, "everything is released once");
}
