// K03 the converter as a whole
#include <sx.h>
#include <algorithm>
#include <cstring>
#include <vector>
#include <boost/filesystem.hpp>
#include <pwned-lib/hash.hpp>
namespace fs = boost::filesystem; using pwned::Hash;
int sx_main_converter(int argc, const char *argv[]);
struct Rec { uint64_t u, l; uint32_t c; };
static uint64_t rd(const std::string &s, size_t p, int k) { uint64_t v = 0; for (int i = k; i--;) v = v << 8 | (unsigned char)s[p + i]; return v; }
static std::string get(const std::string &n) { static char b[4096]; long k = sx_fs_get(n.c_str(), b, sizeof b); if (k < 0 || k > (long)sizeof b) sx_fail("an output file is readable and not larger than all passwords"); return std::string(b, k); }
static std::vector<std::vector<Rec>> outputs() {
  std::vector<std::string> v; for (fs::directory_iterator i{fs::path("out")}, e; i != e; ++i) v.push_back(i->path().string()); std::sort(v.begin(), v.end());
  std::vector<std::vector<Rec>> o; for (auto &f : v) { std::string s = get(f); sx_assert(s.size() % 20 == 0, "the output consists of complete records"); o.emplace_back(); for (size_t p = 0; p + 20 <= s.size(); p += 20) { o.back().push_back({rd(s, p, 8), rd(s, p + 8, 8), (uint32_t)rd(s, p + 16, 4)}); sx_obs(o.back().back().c, "count"); }
    auto &r = o.back(); for (size_t i = 1; i < r.size(); ++i) sx_assert((r[i - 1].u < r[i].u) | ((r[i - 1].u == r[i].u) & (r[i - 1].l < r[i].l)), "every output file is strictly ascending"); }
  return o;
}
static void conserved(const std::vector<std::vector<Rec>> &f, const std::vector<std::string> &pw) {
  uint64_t sum = 0; for (auto &x : f) for (auto &r : x) sum += r.c; sx_assert(sum == pw.size(), "the counts of all records add up to the number of passwords");
  for (auto &p : pw) { Hash h(p); uint64_t want = 0, have = 0; for (auto &q : pw) { Hash g(q); if ((g.quad.upper == h.quad.upper) & (g.quad.lower == h.quad.lower)) ++want; }
    for (auto &x : f) for (auto &r : x) if ((r.u == h.quad.upper) & (r.l == h.quad.lower)) have += r.c;
    sx_assert(have == want, "the counts of a hash add up to the occurrences of its passwords"); }
}
static int run(std::vector<const char *> a) { a.insert(a.begin(), "pwned-converter-cli"); int n = (int)a.size(); a.push_back(nullptr); return sx_main_converter(n, a.data()); }
static std::string one(const char *nm) { std::string s = sx_string(nm, 1); sx_assume((s[0] != '\n') & (s[0] != '\r') & (s[0] != ':') & (s[0] != ';') & (s[0] != '\t') & (s[0] != ' ')); return s; }
static void tree() { fs::create_directory("src"); fs::create_directory("src/x"); fs::create_directory("src/y"); fs::create_directory("out"); static const char m[] = "MemTotal:   4096 kB\nMemAvailable:   2048 kB\n"; sx_fs_put("/proc/meminfo", m, sizeof m - 1); }
static void put(const char *n, const std::string &t) { sx_fs_put(n, t.data(), t.size()); }
// files of the same name in different directories are converted at the same time
SX_HARNESS(k03_parallel)
{
  tree(); std::string a = one("a"), b = one("b"); put("src/x/in.txt", "u:" + a + "\n"); put("src/y/in.txt", "u:" + b + "\n"); put("src/other.dat", "u:no\n"); put("src/x/atxt", "u:no\n"); put("src/in.txt.gz", "u:no\n");
  int r = run({"--src", "src", "--dst", "out", "--ram", "100"}); sx_assert(r == 0, "converting ends successfully"); conserved(outputs(), {a, b}); sx_reach("done");
}
SX_HARNESS(k03_pause)
{
  tree(); std::string a = one("a"); put("src/in.txt", "u:" + a + "\nu:" + a + "\nu:zz\n"); sx_keys("  ", 2); sx_md5_yield(1);
  int r = run({"-S", "src", "-D", "out", "--ram", "100"}); sx_md5_yield(0); sx_assert(r == 0, "converting ends successfully"); conserved(outputs(), {a, a, "zz"}); sx_reach("done");
}
SX_HARNESS(k03_cancel)
{
  tree(); std::string a = one("a"); put("src/in.txt", "u:" + a + "\nu:zz\n"); put("src/x/in.txt", "u:y\n"); std::string q = sx_pick("paused", 0, 1) ? " q" : "q"; sx_keys(q.data(), q.size());
  int r = run({"-S", "src", "-D", "out", "--ram", "100"}); sx_assert(r == 0, "a cancelled run ends"); uint64_t n = 0; for (auto &f : outputs()) for (auto &x : f) n += x.c; sx_assert(n <= 3, "nothing is converted twice"); sx_reach("done");
}
// files named on the command line, all options
SX_HARNESS(k03_options)
{
  const unsigned md5 = sx_pick("md5", 0, 2), hex = sx_bound("all", 0) ? sx_pick("hex", 0, 2) : (md5 + 1) % 3, thr = sx_pick("threads", 0, 2), mem = thr == 1; tree(); std::string a = one("a");
  const std::string h = "00112233445566778899aabbccddeeff"; put("x.txt", "u:" + a + "\nu:" + h + "\n"); put("src/y.md", "u:$HEX[4142]\n");
  std::vector<const char *> v{"--input", "x.txt", "-I", "src/y.md", "--dst", "out", "--ext", ".bin"}; if (mem) { v.push_back("--ram"); v.push_back("0"); } if (thr) { v.push_back("-T"); v.push_back(thr == 1 ? "0" : "3"); }
  if (md5) v.push_back(md5 == 1 ? "--force-md5" : "--auto-md5"); if (hex) v.push_back(hex == 1 ? "--force-hex" : "--auto-hex");
  int r = run(v); sx_assert(r == 0, "converting ends successfully"); auto o = outputs(); uint64_t n = 0, digest = 0, dec = 0, asis = 0, lit = 0, first = 0; Hash hh = Hash::fromHex(h), hl(h), ab("AB"), ax("$HEX[4142]"), ha(a);
  for (auto &x : o) for (auto &q : x) { n += q.c; if ((q.u == hh.quad.upper) & (q.l == hh.quad.lower)) digest += q.c; if ((q.u == hl.quad.upper) & (q.l == hl.quad.lower)) lit += q.c; if ((q.u == ab.quad.upper) & (q.l == ab.quad.lower)) dec += q.c; if ((q.u == ax.quad.upper) & (q.l == ax.quad.lower)) asis += q.c; if ((q.u == ha.quad.upper) & (q.l == ha.quad.lower)) first += q.c; }
  sx_assert(n == 3 && first >= 1, "every password is counted once"); sx_assert(md5 ? digest >= 1 : lit >= 1, "digests are taken as such if the options say so"); sx_assert(hex ? dec >= 1 : asis >= 1, "hexadecimal passwords are decoded if the options say so"); sx_reach("done");
}
SX_HARNESS(k03_refused)
{
  const unsigned k = sx_pick("case", 0, 3); tree(); put("src/in.txt", "u:p\n"); std::vector<const char *> v; if (k == 0) v = {"--src", "src"}; if (k == 1) v = {"--dst", "out"}; if (k == 2) v = {"--src", "src", "--dst", "out", "--nonsense"}; if (k == 3) v = {"--src", "src", "--dst", "out", "--ram", "x"};
  int r = run(v); sx_assert(r != 0, "a command line that makes no sense is refused"); sx_assert(outputs().empty(), "nothing is converted"); sx_reach("done");
}
// F01: whatever cannot be opened or written, a successful run has lost nothing
SX_HARNESS(f01_faults)
{
  tree(); std::string a = one("a"); const std::string x = "u:" + a + "\nu:zz\n", y = "u:yy\nu:" + a + "\nu:zz\n"; put("src/x/in.txt", x); put("src/y/in.txt", y); const unsigned split = sx_pick("split", 0, 1); if (sx_pick("existing", 0, 1)) put("src/old", "x");
  const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 1, 19, 20, 21, 39, 40, 59}; if (what == 1) sx_fault(sx_pick("open", 1, split ? 8 : 5), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 7)]);
  int r = run({"--src", "src", "--dst", "out", "--ram", split ? "0" : "100"}); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1);
  auto o = outputs(); std::vector<std::string> pw{a, "zz", "yy", a, "zz"};
  if (r == 0) conserved(o, pw); else { sx_assert(hit, "a run without faults is successful"); sx_reach("failed"); for (auto &f : o) for (auto &q : f) { uint64_t n = 0, m = 0; for (auto &p : pw) { Hash g(p); if ((g.quad.upper == q.u) & (g.quad.lower == q.l)) ++n; } for (auto &g : o) for (auto &s : g) if ((s.u == q.u) & (s.l == q.l)) m += s.c; sx_assert(m <= n, "nothing is counted twice"); } }
  if (hit) sx_reach("hit"); sx_assert(get("src/x/in.txt") == x, "the inputs keep their content"); sx_assert(get("src/y/in.txt") == y, "the inputs keep their content"); sx_obs(r != 0, "status"); sx_reach("done");
}
// an input that cannot be read from some position on
SX_HARNESS(f01_read)
{
  tree(); std::string a = one("a"); const std::string x = "u:" + a + "\nu:zz\n", y = "u:yy\nu:" + a + "\n"; put("src/x/in.txt", x); put("src/y/in.txt", y); const char *const N[] = {"src/x/in.txt", "src/y/in.txt"}; const unsigned at = sx_pick("file", 0, 1), split = sx_pick("split", 0, 1); const size_t size = at ? y.size() : x.size();
  sx_fault_read(N[at], (long)sx_pick("position", 0, size)); int r = run({"--src", "src", "--dst", "out", "--ram", split ? "0" : "100"}); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0);
  auto o = outputs(); std::vector<std::string> pw{a, "zz", "yy", a};
  if (r == 0) conserved(o, pw); else { sx_assert(hit, "a run without faults is successful"); sx_reach("failed"); for (auto &f : o) for (auto &q : f) { uint64_t n = 0, m = 0; for (auto &p : pw) { Hash g(p); if ((g.quad.upper == q.u) & (g.quad.lower == q.l)) ++n; } for (auto &g : o) for (auto &s : g) if ((s.u == q.u) & (s.l == q.l)) m += s.c; sx_assert(m <= n, "nothing else than passwords of the inputs is counted, and nothing twice"); } }
  sx_assert(get("src/x/in.txt") == x, "the inputs keep their content"); sx_assert(get("src/y/in.txt") == y, "the inputs keep their content"); sx_obs(r != 0, "status"); sx_reach("done");
}
// more files than can be open at once
SX_HARNESS(f01_many)
{
  tree(); const unsigned n = sx_pick("files", 4, sx_bound("files", 9)), at = sx_pick("at", 0, 1) ? n - 1 : 0; std::string a = sx_pick("again", 0, 1) ? "d" : "a"; std::vector<std::string> pw; for (unsigned i = 0; i < n; ++i) { const std::string p = i == at ? a : std::string(1, (char)('b' + i)); pw.push_back(p); put(("src/x/i" + std::to_string(i) + ".txt").c_str(), "u:" + p + "\n"); }
  sx_open_files(sx_pick("open", 3, 4)); int r = run({"--src", "src", "--dst", "out", "--ram", "100"}); sx_open_files(0); if (r == 0) conserved(outputs(), pw); sx_assert(r == 0, "the number of files does not matter"); sx_reach("done");
}
