// S03 what the server answers, S04 what becomes of connections (models/net stands in for Boost.Asio and Boost.Beast)
#include <sx.h>
#include <sxnet.hpp>
#include <cstring>
#include <pwned-server/httpworker.hpp>
using sxnet::net; using sxnet::ec_t;
sxnet::Net sxnet::net;
static long sx_now = 1000000000000;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(sx_now)); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(sx_now)); }
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
struct Rec { uint64_t u, l; uint32_t c; };
// 8 bits of each half of a hash vary
static uint64_t some(const char *name, int shift) { return 0x4123456789abcdefull ^ (uint64_t)sx_any<uint8_t>(name) << shift; }
static std::vector<Rec> database(size_t n) {
  std::vector<Rec> d(n); std::string f;
  for (size_t i = 0; i < n; ++i) { d[i].u = some("u", 52); d[i].l = some("l", 4); d[i].c = sx_any<uint32_t>("c"); sx_assume((d[i].c > 0) & (d[i].c < sx_bound("count", 20))); for (size_t k = i; k--;) sx_assume((d[k].u < d[i].u) | ((d[k].u == d[i].u) & (d[k].l < d[i].l))); le(f, d[i].u, 8); le(f, d[i].l, 8); le(f, d[i].c, 4); }
  sx_fs_put("db.md5", f.data(), f.size()); return d;
}
static unsigned logged = 0;
struct Server { sxnet::Acceptor a; webservice::HttpWorker::log_callback_t log = [](const std::string &s) { ++logged; }; webservice::HttpWorker w; Server(const char *index = "", bool logs = false) : w(a, "/v1", "db.md5", index, logs ? &log : nullptr) { w.start(); } };
static void settle() { while (!net.posted.empty()) { auto h = net.posted.front(); net.posted.erase(net.posted.begin()); h(); } }
static void connect() { auto h = net.accept.h; net.accept.h = nullptr; net.acceptSock->open = true; net.acceptSock->sent = net.acceptSock->gone = false; ++net.connections; h(ec_t()); settle(); }
static void request(const std::string &method, sxnet::Verb v, const std::string &target) { auto h = net.readh; net.readh = nullptr; net.readSock = nullptr; net.into->v = v; net.into->m = method; net.into->t = target; h(ec_t(), 100); settle(); }
static void written(ec_t e) { auto h = net.writeh; net.writeh = nullptr; net.writeSock = nullptr; h(e, 100); settle(); }
struct Answer { unsigned status = 0; std::string body; };
static Answer ask(const std::string &target, const std::string &method = "GET", sxnet::Verb v = sxnet::Verb::get) {
  sx_assert((bool)net.accept, "the server waits for connections"); connect(); sx_assert((bool)net.readh, "a connection is served"); request(method, v, target);
  sx_assert((bool)net.writeh, "a request is answered"); Answer a; a.status = (unsigned)net.out->s; a.body = net.out->b; written(ec_t()); sx_assert((bool)net.accept && !net.acceptSock->open, "after the answer the server takes the next connection"); return a;
}
static std::string hexdigits(const uint64_t u, const uint64_t l, bool big) { std::string s; for (int w = 0; w < 2; ++w) for (int k = 60; k >= 0; k -= 4) { uint8_t v = (w ? l : u) >> k & 15; s += (char)(v + (v < 10 ? '0' : big ? 'A' - 10 : 'a' - 10)); } return s; }
static bool same(const std::string &a, size_t at, const std::string &b) { bool r = at + b.size() <= a.size(); for (size_t i = 0; i < b.size() && at + i < a.size(); ++i) r = r & (a[at + i] == b[i]); return r; }
static size_t value(const std::string &b, const char *key) { std::string k = std::string("\"") + key + "\":"; for (size_t i = 0; i + k.size() <= b.size(); ++i) { bool c = false; for (size_t j = 0; j < k.size(); ++j) c = c | sx_is_symbolic((unsigned char)b[i + j]); if (!c && b.compare(i, k.size(), k) == 0) return i + k.size(); } sx_fail("the answer has all its fields"); }
static uint64_t number(const std::string &b, const char *key) { size_t i = value(b, key); uint64_t v = 0; unsigned n = 0; for (; i < b.size() && ((b[i] >= '0') & (b[i] <= '9')); ++i, ++n) v = v * 10 + (b[i] - '0'); sx_assert(n > 0, "a number"); return v; }
static void lookup(const std::vector<Rec> &d, bool hit) {
  Rec q; if (hit) q = d[0]; else { q.u = some("qu", 52); q.l = some("ql", 4); }
  uint64_t e = 0; for (const Rec &r : d) e = ((r.u == q.u) & (r.l == q.l)) ? r.c : e;
  Answer a = ask("/v1/lookup?hash=" + hexdigits(q.u, q.l, sx_pick("capital", 0, 1)));
  sx_assert(a.status == 200, "a lookup succeeds"); uint64_t f = number(a.body, "found"); sx_assert(f == e, "the answer is the count stored for the hash, or 0"); sx_assert(same(a.body, value(a.body, "hash"), "\"" + hexdigits(q.u, q.l, false) + "\""), "the answer names the hash");
  number(a.body, "lookup-time-ms"); sx_obs(f, "found"); if (e) sx_reach("hit");
}
SX_HARNESS(s03_lookup) { const size_t n = sx_pick("records", 0, sx_bound("records", 2)); std::vector<Rec> d = database(n); Server s; lookup(d, n && sx_pick("known", 0, 1)); if (sx_bound("again", 0)) lookup(d, false); sx_reach("done"); }
SX_HARNESS(s03_counts) {   // counts of any size
  static const uint32_t C[] = {20, 99, 100, 255, 256, 32767, 32768, 65535, 65536, 16777217, 2147483647u, 2147483648u, 4294967295u}; Rec d{some("u", 52), some("l", 4), C[sx_pick("count", 0, 12)]}; std::string f; le(f, d.u, 8); le(f, d.l, 8); le(f, d.c, 4); sx_fs_put("db.md5", f.data(), f.size());
  Server s; Answer a = ask("/v1/lookup?hash=" + hexdigits(d.u, d.l, false)); sx_assert(a.status == 200, "a lookup succeeds"); sx_assert(number(a.body, "found") == d.c, "the answer is the count stored for the hash"); sx_reach("done");
}
SX_HARNESS(s03_index) {   // through an index of 6 bits
  const size_t n = sx_pick("records", 0, sx_bound("records", 2)); std::vector<Rec> d = database(n); std::string f; for (uint64_t p = 0; p < 64; ++p) { uint64_t v = ~0ull; for (size_t i = n; i--;) v = (d[i].u >> 58) == p ? 20 * i : v; le(f, v, 8); } sx_fs_put("db.idx", f.data(), f.size());
  Server s("db.idx"); lookup(d, n > 1); sx_reach("done");
}
SX_HARNESS(s03_info) { const size_t n = sx_pick("records", 0, 3); database(n); Server s; Answer a = ask("/v1/info"); sx_assert(a.status == 200, "the information is given"); uint64_t c = number(a.body, "count"); sx_assert(c == n, "the number of hashes is right"); number(a.body, "last-update"); sx_obs(c, "count"); sx_reach("done"); }
SX_HARNESS(s03_invalid) {   // a hash that is none is not found
  std::vector<Rec> d(1); d[0] = Rec{0, 0, 7}; std::string f; le(f, 0, 16 > 8 ? 8 : 8); le(f, 0, 8); le(f, 7, 4); sx_fs_put("db.md5", f.data(), f.size());
  const size_t n = sx_pick("len", 0, 3) == 3 ? 33 : 30 + sx_pick("len2", 0, 2); std::string h(n, '0'); char c = sx_any<char>("c"); sx_assume((c > ' ') & (c != '&') & (c != '=') & (c != '#') & (c != '?')); const size_t at = sx_pick("at", 0, 31); if (at < n) h[at] = c;
  bool ok = n == 32; if (ok) ok = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));
  Server s; Answer a = ask("/v1/lookup?hash=" + h); if (ok) sx_assert(a.status == 200 && number(a.body, "found") == (c == '0' ? 7u : 0u), "a hash is looked up"); else { sx_assert(a.status >= 400 && a.status < 500, "what is not a hash is refused"); sx_reach("refused"); }
  uint64_t st = a.status; sx_obs(st, "status"); sx_reach("done");
}
SX_HARNESS(s03_other) {   // other targets and methods
  database(0); Server s; static const char *const T[] = {"/v1/lookup?hash=00000000000000000000000000000000", "/v1/info"}; std::string t = T[sx_pick("what", 0, 1)]; const std::string good = t; using V = sxnet::Verb; static const V M[] = {V::get, V::post, V::head, V::put, V::delete_, V::connect, V::options, V::unknown}; static const char *const MN[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "CONNECT", "OPTIONS", "BREW"};
  const size_t at = sx_pick("at", 0, 16); const unsigned m = sx_pick("method", 0, at == 15 ? 7 : 1); const bool get = m == 0; if (at < 15 && at < t.size()) t[at] = sx_any<char>("c"); else if (at == 15) t = sx_string("target", sx_pick("len", 0, 2)); else if (at == 16) { const std::string more = sx_string("more", sx_pick("len", 1, 2)); for (char c : more) sx_assume((c != '&') & (c != '#')); t.insert(sx_pick("place", 0, 1) ? t.size() : good[4] == 'i' ? 3 : 10, more); }
  Answer a = ask(t, MN[m], M[m]);
  const size_t q = t.find('?'); const std::string path = t.substr(0, q); const bool info = path == "/v1/info", look = t == good && good[4] == 'l';
  if (!get) sx_assert(a.status == 400, "other methods are refused"); else if (info | look) sx_assert(a.status == 200, "the two services answer"); else { sx_assert((a.status == 404) | (a.status == 400), "other targets are not found"); sx_reach("missing"); }
  uint64_t st = a.status; sx_obs(st, "status"); sx_reach("done");
}
SX_HARNESS(s03_nodatabase) {   // a database that cannot be opened
  database(1); Server *s = nullptr; const unsigned k = sx_pick("open", 1, 2); { std::string f; le(f, 0, 8); le(f, 0, 8); sx_fs_put("db.idx", f.data(), f.size()); } sx_fault_file(k == 1 ? "db.md5" : "db.idx"); bool refused = false;
  try { s = new Server(k == 1 && sx_pick("index", 0, 1) ? "" : "db.idx"); } catch (const std::exception &) { refused = true; } sx_fault_file(nullptr);
  if (refused) { sx_assert(k == 1, "without an index the server works"); sx_reach("refused"); } else { sxnet::Net none; Answer a = ask("/v1/lookup?hash=" + std::string(32, '0')); sx_assert(k == 2 || a.status != 200, "there are no answers from a database that cannot be read"); if (k == 2) sx_assert(a.status == 200 && number(a.body, "found") == 0, "without an index the server works"); } sx_reach("done");
}
SX_HARNESS(s03_read) {   // a database that cannot be read from some position on
  const size_t n = sx_pick("records", 1, sx_bound("records", 2)); std::vector<Rec> d = database(n); const bool index = sx_pick("index", 0, 1); if (index) { std::string f; for (uint64_t p = 0; p < 2; ++p) { uint64_t v = ~0ull; for (size_t i = n; i--;) v = (d[i].u >> 63) == p ? 20 * i : v; le(f, v, 8); } sx_fs_put("db.idx", f.data(), f.size()); } Server s(index ? "db.idx" : ""); static const long P[] = {0, 1, 16, 19, 20, 36}; sx_fault_read("db.md5", P[sx_pick("position", 0, n == 1 ? 3 : 5)]); const Rec q = d[sx_pick("which", 0, n - 1)];
  Answer a = ask("/v1/lookup?hash=" + hexdigits(q.u, q.l, false)); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); if (a.status == 200) sx_assert(number(a.body, "found") == q.c, "the answer is the count stored for the hash, or an error"); else { sx_assert(hit, "a lookup succeeds"); sx_assert(a.status >= 500, "the server says that it is at fault"); sx_reach("failed"); }
  Answer b = ask("/v1/lookup?hash=" + hexdigits(q.u, q.l, false)); sx_assert(b.status == 200 && number(b.body, "found") == q.c, "afterwards lookups succeed"); uint64_t st = a.status; sx_obs(st, "status"); sx_reach("done");
}
// connections that fail or stall at any point
SX_HARNESS(s04_connections) {
  std::vector<Rec> d = database(0); Server s("", sx_pick("log", 0, 1)); const unsigned steps = sx_bound("steps", 5); unsigned asked = 0, answered = 0; const ec_t broken(boost::system::errc::connection_reset, boost::system::generic_category());
  for (unsigned i = 0; i < steps; ++i) {
    const unsigned pending = (net.accept ? 1 : 0) + (net.readh ? 1 : 0) + (net.writeh ? 1 : 0); sx_assert(pending == 1, "the worker is always waiting for exactly one thing"); sx_assert(net.timer && net.timer->waiting.size() == 1, "the time limit is always watched, once");
    if (net.readh || net.writeh) sx_assert(net.timer->at - std::chrono::steady_clock::now() <= std::chrono::minutes(5), "a connection has a time limit");
    const unsigned e = sx_pick("event", 0, 3);
    if (e == 2) { sx_now += 1000000000; continue; }
    if (e == 3) {
      if (net.timer->at == std::chrono::steady_clock::time_point::max()) sx_prune();
      const bool open = (bool)net.readh | (bool)net.writeh; sx_now = std::max<long>(sx_now, net.timer->at.time_since_epoch().count()); auto w = net.timer->waiting; net.timer->waiting.clear(); for (auto &h : w) h(ec_t()); settle();
      if (open) { sx_assert((bool)net.accept && !net.acceptSock->open, "a connection that takes too long is closed, and the next one is taken"); sx_reach("timeout"); } continue;
    }
    if (net.accept) { if (e) { auto h = net.accept.h; net.accept.h = nullptr; h(broken); settle(); } else { connect(); sx_assert((bool)net.readh, "a connection is served"); } }
    else if (net.readh) { if (e) { auto h = net.readh; net.readh = nullptr; net.readSock = nullptr; h(broken, 0); settle(); sx_assert((bool)net.accept, "after an error the next connection is taken"); } else { ++asked; net.acceptSock->gone = sx_pick("gone", 0, 1); request("GET", sxnet::Verb::get, ([](unsigned t) { return t == 0 ? "/none" : t == 1 ? "/v1/info" : "/v1/lookup?hash=00112233445566778899aabbccddeeff"; })(sx_pick("target", 0, 2))); sx_assert((bool)net.writeh && net.out, "a request is answered"); } }
    else { ++answered; const unsigned st = (unsigned)net.out->s; sx_assert((st == 200) | (st == 404), "the answer is there until it is sent"); net.acceptSock->gone = e != 0; written(e ? broken : ec_t()); sx_assert((bool)net.accept && !net.acceptSock->open, "after the answer the connection is closed and the next one is taken"); sx_reach("answered"); }
  }
  sx_obs(asked, "asked"); sx_obs(answered, "answered"); sx_reach("done");
}
#ifdef S05
// the server as a whole
#include <thread>
int sx_main_server(int, const char **);
static int started(std::vector<const char *> a) { a.push_back(nullptr); return sx_main_server((int)a.size() - 1, a.data()); }
static unsigned runs = 0; static size_t workersFound = 0; static bool answered = false; static std::string base; static std::vector<Rec> theDb;
static void serve() {   // what comes over the network while the server runs: one request to each of two workers
  if (runs++) return; workersFound = net.waiting.size(); net.many = false; auto all = net.waiting; const size_t n = all.size(); for (size_t i = 1; i < n; ++i) sx_assert(all[i].s != all[i - 1].s && all[i].s != all[0].s, "each worker waits for connections once"); const size_t pick = n > 1 ? sx_pick("worker", 0, 1) : 0;
  for (size_t k = 0; k < 2 && n > 0; ++k) {
    const size_t i = k == 0 ? (pick ? n - 1 : 0) : n / 2; if (k == 1 && i == (pick ? n - 1 : 0)) break; net.accept = sxnet::Op(); net.accept.h = all[i].h; net.acceptSock = all[i].s; const Rec q = theDb[0];
    Answer a = ask(base + "/lookup?hash=" + hexdigits(q.u, q.l, false)); sx_assert(a.status == 200 && number(a.body, "found") == q.c, "each worker answers from the database, below the path of the address"); answered = true; }
}
SX_HARNESS(s05_serve) {
  theDb = database(1); struct Form { const char *address, *host; unsigned port; const char *path; }; static const Form F[] = {{nullptr, "127.0.0.1", 31337, "/v1/pwned/api"}, {"http://10.1.2.3:8080/v1", "10.1.2.3", 8080, "/v1"}, {"https://0.0.0.0/deep/path", "0.0.0.0", 443, "/deep/path"}, {"http://192.168.100.255:65535", "192.168.100.255", 65535, ""}, {"http://127.0.0.1/a", "127.0.0.1", 80, "/a"}};
  static const char *const W[] = {nullptr, "1", "3", "0", "-2"}, *const T[] = {nullptr, "1", "2", "0"}; const unsigned vary = sx_pick("vary", 0, 1), w = vary ? 2 : sx_pick("workers", 0, 4), t = vary ? sx_pick("threads", 0, 3) : 3, v = vary ? 0 : sx_pick("verbose", 0, 2), x = sx_pick("index", 0, 1); const Form &f = F[sx_pick("address", 0, vary ? 1 : 4)]; base = f.path;
  std::vector<const char *> a{"pwned-server", "-I", "db.md5"}; if (f.address) { a.push_back("-A"); a.push_back(f.address); } if (W[w]) { a.push_back("--workers"); a.push_back(W[w]); } if (T[t]) { a.push_back("--threads"); a.push_back(T[t]); } for (unsigned i = 0; i < v; ++i) a.push_back("-v");
  if (x) { std::string i; for (unsigned p = 0; p < 16; ++p) le(i, p == (theDb[0].u >> 60) ? 0 : ~0ull, 8); sx_fs_put("db.idx", i.data(), i.size()); a.push_back("-X"); a.push_back("db.idx"); }
  net.many = true; net.run = serve; int r = started(a); net.run = nullptr; sx_assert(r == 0, "the server ends successfully when it is told to");
  sx_assert(net.listening.size() == 1 && net.listening[0] == f.host && net.ports[0] == f.port, "the server listens on host and port of the address"); const size_t want = w == 1 ? 1 : w == 2 ? 3 : 64; sx_assert(workersFound == want, "as many workers as asked for");
  if (T[t]) sx_assert(runs == 1 + (t == 1 ? 1u : t == 2 ? 2u : 0u), "as many threads as asked for"); sx_assert(runs >= 1 && answered, "requests are answered"); sx_reach("done");
}
SX_HARNESS(s05_refused) {
  theDb = database(1); static const char *const A[] = {"nonsense", "http://localhost:8080/v1", "http://127.0.0.1:65536/v1", "http://127.0.0.256/v1", "127.0.0.1:8080", "", "http://", "http://:80/", "http://1.2.3/x"}; const unsigned what = sx_pick("what", 0, 15); std::vector<const char *> a{"pwned-server"}; net.many = true; net.run = [] { ++runs; };
  if (what != 9) { a.push_back("-I"); a.push_back(what == 10 ? "none.md5" : "db.md5"); } if (what < 9) { a.push_back("-A"); a.push_back(A[what]); } if (what == 11) sx_fault_file("db.md5"); if (what == 12) a.push_back("--no-such-option"); if (what == 13) { a.push_back("-W"); a.push_back("many"); } if (what == 14) net.inUse = true; if (what == 15) { a.push_back("-X"); a.push_back("none.idx"); }
  int r = started(a); sx_fault_file(nullptr); sx_assert(r != 0, "what cannot be done is reported"); sx_assert(runs == 0, "the server does not run"); sx_reach("done");
}
#endif
