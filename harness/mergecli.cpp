// M04 the merger as a whole
#include <sx.h>
#include <cstring>
#include <boost/filesystem.hpp>
#include <vector>

int sx_main_merger(int argc, const char *argv[]);
struct Rec { uint64_t u, l; uint32_t c; };
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
static uint64_t rd(const std::string &s, size_t p, int k) { uint64_t v = 0; for (int i = k; i--;) v = v << 8 | (unsigned char)s[p + i]; return v; }
static const char *NAMES[] = {"a.md5", "b.md5", "c.md5", "d.md5"};
struct Set { std::vector<std::vector<Rec>> f; std::vector<std::string> raw; size_t total() const { size_t n = 0; for (auto &x : f) n += x.size(); return n; } };
// files of records in ascending order; with narrow, 8 bits of each hash vary
static Set anySet(size_t files, size_t per, size_t total, bool narrow, bool tails)
{
  Set s; size_t left = total;
  for (size_t k = 0; k < files; ++k) {
    size_t n = sx_pick("records", 0, per < left ? per : left); left -= n; std::vector<Rec> v; std::string b;
    for (size_t i = 0; i < n; ++i) {
      Rec r;
      if (narrow) { uint8_t x = sx_any<uint8_t>("h"); r.u = (uint64_t)(x >> 3) << 61 | 0x1122334455667788ull >> 4; r.l = (uint64_t)(x & 7) << 30 | 5; } else { r.u = sx_any<uint64_t>("u"); r.l = sx_any<uint64_t>("l"); }
      r.c = sx_any<uint32_t>("c"); sx_assume((r.c < (1u << 28)));
      for (size_t q = i; q--;) sx_assume((v[q].u < r.u) | ((v[q].u == r.u) & (v[q].l <= r.l)));
      v.push_back(r); le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4);
    }
    if (tails) { size_t t = sx_pick("tail", 0, 3); b += sx_string("tail", t == 0 ? 0 : t == 1 ? 1 : t == 2 ? 16 : 19); }
    sx_fs_put(NAMES[k], b.data(), b.size()); s.f.push_back(v); s.raw.push_back(b);
  }
  return s;
}
static std::string get(const char *n) { static char b[4096]; long k = sx_fs_get(n, b, sizeof b); if (k < 0) sx_fail("the output file exists"); if (k > (long)sizeof b) sx_fail("the output is not larger than all inputs together"); return std::string(b, k); }
static void checkHashes(const Set &s, const std::vector<Rec> &o)
{
  for (size_t i = 1; i < o.size(); ++i) sx_assert((o[i - 1].u < o[i].u) | ((o[i - 1].u == o[i].u) & (o[i - 1].l < o[i].l)), "the output is strictly ascending");
  for (auto &r : o) { bool f = false; for (auto &v : s.f) for (auto &x : v) f |= (x.u == r.u) & (x.l == r.l); sx_assert(f, "every hash of the output comes from an input"); }
  for (auto &v : s.f) for (auto &x : v) { bool f = false; for (auto &r : o) f |= (x.u == r.u) & (x.l == r.l); sx_assert(f, "every hash of an input is in the output"); }
}
static void checkCounts(const Set &s, const std::vector<Rec> &o)
{
  for (auto &r : o) { uint32_t e = 0; for (auto &v : s.f) for (auto &x : v) e += ((x.u == r.u) & (x.l == r.l)) ? x.c : 0; sx_assert(r.c == e, "the count of a hash is the sum of its counts in the inputs"); }
}
static std::vector<Rec> records(const std::string &o)
{
  sx_assert(o.size() % 20 == 0, "the output consists of complete records"); std::vector<Rec> r;
  for (size_t p = 0; p + 20 <= o.size(); p += 20) { r.push_back({rd(o, p, 8), rd(o, p + 8, 8), (uint32_t)rd(o, p + 16, 4)}); sx_obs(r.back().u, "u"); sx_obs(r.back().l, "l"); sx_obs(r.back().c, "c"); }
  return r;
}
static void inputsKept(const Set &s) { for (size_t k = 0; k < s.raw.size(); ++k) { static char b[256]; long n = sx_fs_get(NAMES[k], b, sizeof b); sx_assert(n == (long)s.raw[k].size(), "the inputs keep their size"); if (n == (long)s.raw[k].size()) sx_assert(memcmp(b, s.raw[k].data(), n) == 0, "the inputs keep their content"); } }
static int run(size_t files, const char *batch)
{
  std::vector<const char *> a{"pwned-merger-cli", "-O", "out.bin", "-T", "work", "-n", batch}; for (size_t k = 0; k < files; ++k) { a.push_back("-I"); a.push_back(NAMES[k]); } a.push_back(nullptr);
  return sx_main_merger((int)a.size() - 1, a.data());
}
SX_HARNESS(m04_batches)
{
  size_t f = sx_pick("files", 1, sx_bound("files", 3)), n = sx_pick("batch", 2, 3); Set s = anySet(f, sx_bound("per", 1), sx_bound("total", 3), true, false);
  int r = run(f, n == 2 ? "2" : "3"); sx_assert(r == 0, "merging ends successfully");
  auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o); inputsKept(s);
  sx_assert(sx_fs_count() == (int)f + 1, "intermediate files are removed"); if (f > n) sx_reach("staged"); sx_reach("done");
}
// a batch of one file would never come to an end
SX_HARNESS(m04_refused)
{
  Set s = anySet(2, 1, 1, true, false); int r = run(2, sx_pick("batch", 0, 1) ? "1" : "0"); sx_assert(r != 0, "a batch size below two is refused"); inputsKept(s); sx_assert(sx_fs_count() == 2, "nothing is written"); sx_reach("done");
}
// an existing output is overwritten only if that is confirmed
SX_HARNESS(m04_overwrite)
{
  Set s = anySet(1, 1, 1, true, false); sx_fs_put("out.bin", "precious", 8); std::string in = sx_string("answer", 1); sx_assume((in[0] != 0)); in += "\n"; sx_stdin(in.data(), in.size());
  int r = run(1, "2"); sx_assert(r == 0, "the run ends successfully"); bool yes = in[0] == 'y'; std::string g = get("out.bin");
  if (yes) { auto o = records(g); checkHashes(s, o); checkCounts(s, o); sx_reach("yes"); } else { sx_assert(g == "precious", "without confirmation an existing file is left alone"); sx_reach("no"); }
  sx_reach("done");
}
SX_HARNESS(m04_cancel)
{
  Set s = anySet(3, 1, 3, true, false); std::string k = "q"; if (sx_pick("pause", 0, 1)) k = "pq"; sx_keys(k.data(), k.size());
  int r = run(3, "2"); sx_assert(r == 0, "a cancelled run ends"); inputsKept(s); int n = sx_fs_count(); sx_assert(n <= 4, "intermediate files are removed"); sx_obs(n, "files"); sx_reach("done");
}
SX_HARNESS(m04_pause)
{
  Set s = anySet(2, 2, 4, true, false); sx_keys("ppx", 3); int r = run(2, "2"); sx_assert(r == 0, "a paused and resumed run ends");
  auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o); inputsKept(s); sx_reach("done");
}
// many inputs in several stages; the files are fixed except for one record, which may repeat one of the others
SX_HARNESS(m04_many)
{
  const size_t f = 4 + sx_pick("files", 0, sx_bound("files", 5)), n = sx_pick("batch", 2, 4), at = sx_pick("at", 0, 2), x = sx_pick("x", 0, 1); Set s; static std::string names[16]; const size_t k0 = at == 0 ? 0 : at == 1 ? f / 2 : f - 1;
  std::vector<const char *> a{"pwned-merger-cli", "-O", "out.bin", "-T", "work", "-n", n == 2 ? "2" : n == 3 ? "3" : "4"};
  for (size_t k = 0; k < f; ++k) { Rec r{(k * 5 % f + 1) << 40, 3, (uint32_t)(1u << k)}; if (k == k0) r.u = x ? 1ull << 40 : (k0 * 5 % f + 1) << 40 | 1; std::string b; le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); le(b, ~0ull, 8); le(b, 5, 8); le(b, 1, 4); s.f.push_back({r, Rec{~0ull, 5, 1}}); names[k] = "i" + std::to_string(k) + ".md5"; sx_fs_put(names[k].c_str(), b.data(), b.size()); s.raw.push_back(b); a.push_back("-I"); a.push_back(names[k].c_str()); }
  a.push_back(nullptr); int r = sx_main_merger((int)a.size() - 1, a.data()); sx_assert(r == 0, "merging ends successfully"); auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o);
  for (size_t k = 0; k < f; ++k) { static char b[256]; long m = sx_fs_get(names[k].c_str(), b, sizeof b); sx_assert(m == 40 && memcmp(b, s.raw[k].data(), 40) == 0, "the inputs keep their content"); }
  sx_assert(sx_fs_count() == (int)f + 1, "intermediate files are removed"); sx_reach("done");
}
// F02: whatever cannot be opened or written, a successful run has lost nothing
SX_HARNESS(f02_faults)
{
  Set s; uint8_t h[4]; for (auto &x : h) x = sx_any<uint8_t>("h"); sx_assume((h[0] < h[1])); std::vector<const char *> a{"pwned-merger-cli", "-O", "out.bin", "-T", "work", "-n", "2"}; static const char *LIMS[] = {"a.md5", "b.md5", "c.md5"};
  for (size_t k = 0; k < 3; ++k) { std::vector<Rec> v; std::string b; for (size_t i = 0; i < (k == 0 ? 2 : 1); ++i) { Rec r{(uint64_t)h[k ? k + 1 : i] << 40 | 7, 3, 1u << (4 * k + i)}; v.push_back(r); le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); } sx_fs_put(LIMS[k], b.data(), b.size()); s.f.push_back(v); s.raw.push_back(b); a.push_back("-I"); a.push_back(LIMS[k]); } a.push_back(nullptr);
  const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 19, 20, 39, 40, 59, 60, 79}; if (what == 1) sx_fault(sx_pick("open", 1, 7), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 7)]);
  int r = sx_main_merger((int)a.size() - 1, a.data()); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1);
  if (r == 0) { auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o); } else { sx_assert(hit, "a run without faults is successful"); sx_reach("failed"); }
  if (hit) sx_reach("hit"); inputsKept(s); const int files = sx_fs_count(), all = 3 + (sx_fs_get("out.bin", nullptr, 0) >= 0 ? 1 : 0); sx_assert(files == all, "intermediate files are removed"); sx_obs(r != 0, "status"); sx_reach("done");
}
// an input that cannot be read from some position on
SX_HARNESS(f02_read)
{
  Set s; uint8_t h[4]; for (auto &x : h) x = sx_any<uint8_t>("h"); sx_assume((h[0] < h[1])); const bool once = sx_pick("once", 0, 1); std::vector<const char *> a{"pwned-merger-cli", "-O", "out.bin", "-T", "work", "-n", once ? "3" : "2"}; static const char *N[] = {"a.md5", "b.md5", "c.md5"};
  for (size_t k = 0; k < 3; ++k) { std::vector<Rec> v; std::string b; for (size_t i = 0; i < (k == 0 ? 2 : 1); ++i) { Rec r{(uint64_t)h[k ? k + 1 : i] << 40 | 7, 3, 1u << (4 * k + i)}; v.push_back(r); le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); } sx_fs_put(N[k], b.data(), b.size()); s.f.push_back(v); s.raw.push_back(b); a.push_back("-I"); a.push_back(N[k]); } a.push_back(nullptr);
  static const long P[] = {0, 1, 15, 16, 19, 20, 21, 36, 39, 40}; const unsigned at = sx_pick("file", 0, 2), p = sx_pick("position", 0, at ? 5 : 9); sx_fault_read(N[at], P[p]);
  int r = sx_main_merger((int)a.size() - 1, a.data()); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0);
  if (r == 0) { auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o); } else { sx_assert(hit, "a run without faults is successful"); sx_reach("failed"); }
  inputsKept(s); const int files = sx_fs_count(), all = 3 + (sx_fs_get("out.bin", nullptr, 0) >= 0 ? 1 : 0); sx_assert(files == all, "intermediate files are removed"); sx_obs(r != 0, "status"); sx_reach("done");
}
// an input is not overwritten, whatever name it is given by
SX_HARNESS(m04_own)
{
  Set s = anySet(2, 1, 2, true, false); const unsigned at = sx_pick("at", 0, 1), name = sx_pick("name", 0, 1); sx_stdin("y\n", 2);
  int r = sx_main_merger(9, (const char *[]){"pwned-merger-cli", "-O", name ? (at ? "./b.md5" : "./a.md5") : NAMES[at], "-T", "work", "-I", "a.md5", "-I", "b.md5", nullptr}); if (r == 0) sx_fail("an input cannot be the output"); inputsKept(s); sx_assert(sx_fs_count() == 2, "nothing is written"); sx_reach("done");
}
// the inputs are the files below a directory with the extension of such files, whatever extension intermediate files get
SX_HARNESS(m04_scan)
{
  boost::filesystem::create_directory("src"); boost::filesystem::create_directory("src/sub"); uint8_t h[3]; for (auto &x : h) x = sx_any<uint8_t>("h"); Set s; static const char *N[] = {"src/a.md5", "src/sub/b.md5", "src/c.md5"}, *OTHER[] = {"src/d.bin", "src/md5", "src/e.md5.gz", "src/empty.md5"};
  for (size_t k = 0; k < 3; ++k) { Rec r{(uint64_t)h[k] << 32, 3, 1u << k}; std::string b; le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); s.f.push_back({r}); s.raw.push_back(b); sx_fs_put(N[k], b.data(), b.size()); }
  for (size_t k = 0; k < 4; ++k) { std::string b; le(b, 0xffff0000ull + k, 8); le(b, 9, 8); le(b, 1, 4); if (k == 3) b.clear(); sx_fs_put(OTHER[k], b.data(), b.size()); }
  std::vector<const char *> a{"pwned-merger-cli", "-S", "src", "-O", "out.bin", "-T", "work", "-n", "2"}; if (sx_pick("ext", 0, 1)) { a.push_back("-X"); a.push_back(".bin"); } const size_t n = a.size(); a.push_back(nullptr);
  int r = sx_main_merger((int)n, a.data()); sx_assert(r == 0, "merging ends successfully"); auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o);
  for (size_t k = 0; k < 3; ++k) { static char b[64]; long m = sx_fs_get(N[k], b, sizeof b); sx_assert(m == 20 && memcmp(b, s.raw[k].data(), 20) == 0, "the inputs keep their content"); } sx_assert(sx_fs_count() == 8, "intermediate files are removed"); sx_reach("done");
}
// more files than can be open at once
SX_HARNESS(f02_many)
{
  static const size_t F[] = {4, 6, 9}; const size_t f = F[sx_pick("files", 0, 2)], n = sx_pick("batch", 2, 3); Set s; static std::string names[16]; std::vector<const char *> a{"pwned-merger-cli", "-O", "out.bin", "-T", "work", "-n", n == 2 ? "2" : "3"};
  for (size_t k = 0; k < f; ++k) { Rec r{(k * 5 % (f - 1) + 1) << 40, 3, (uint32_t)sx_any<uint16_t>("count")}; std::string b; le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); le(b, ~0ull, 8); le(b, 5, 8); le(b, 1, 4); s.f.push_back({r, Rec{~0ull, 5, 1}}); names[k] = "i" + std::to_string(k) + ".md5"; sx_fs_put(names[k].c_str(), b.data(), b.size()); s.raw.push_back(b); a.push_back("-I"); a.push_back(names[k].c_str()); }
  a.push_back(nullptr); sx_open_files(n + 2); int r = sx_main_merger((int)a.size() - 1, a.data()); sx_open_files(0); sx_assert(r == 0, "the number of files does not matter"); auto o = records(get("out.bin")); checkHashes(s, o); checkCounts(s, o); sx_assert(sx_fs_count() == (int)f + 1, "intermediate files are removed"); sx_reach("done");
}
