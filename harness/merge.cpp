// M01-M03 merging files of records
#include <sx.h>
#include <cstring>
#include <vector>
#include "pwned-merger-cli/mergeoperation.hpp"
using merger::InputFile; using merger::MergeOperation;
struct Rec { uint64_t u, l; uint32_t c; };
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
static uint64_t rd(const std::string &s, size_t p, int k) { uint64_t v = 0; for (int i = k; i--;) v = v << 8 | (unsigned char)s[p + i]; return v; }
static const char *NAMES[] = {"a.md5", "b.md5", "c.md5", "d.md5"};
struct Set { std::vector<std::vector<Rec>> f; std::vector<std::string> raw; size_t total() const { size_t n = 0; for (auto &x : f) n += x.size(); return n; } };
// files of records in ascending order; with narrow, 8 bits of each hash vary
static Set anySet(size_t files, size_t per, size_t total, bool narrow, bool tails)
{
  Set s; size_t left = total;
  for (size_t k = 0; k < files; ++k) {
    size_t n = sx_pick("records", 0, per < left ? per : left); left -= n; std::vector<Rec> v; std::string b;
    for (size_t i = 0; i < n; ++i) {
      Rec r;
      if (narrow) { uint8_t x = sx_any<uint8_t>("h"); r.u = (uint64_t)(x >> 3) << 61 | 0x1122334455667788ull >> 4; r.l = (uint64_t)(x & 7) << 30 | 5; } else { r.u = sx_any<uint64_t>("u"); r.l = sx_any<uint64_t>("l"); }
      r.c = sx_any<uint32_t>("c"); sx_assume((r.c < (1u << 28)));
      for (size_t q = i; q--;) sx_assume((v[q].u < r.u) | ((v[q].u == r.u) & (v[q].l <= r.l)));
      v.push_back(r); le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4);
    }
    if (tails) { size_t t = files == 1 ? sx_pick("tail", 0, 19) : sx_pick("tail", 0, 3); b += sx_string("tail", files == 1 || t == 0 ? t : t == 1 ? 1 : t == 2 ? 16 : 19); }
    sx_fs_put(NAMES[k], b.data(), b.size()); s.f.push_back(v); s.raw.push_back(b);
  }
  return s;
}
static std::string get(const char *n) { static char b[4096]; long k = sx_fs_get(n, b, sizeof b); if (k < 0) sx_fail("the output file exists"); if (k > (long)sizeof b) sx_fail("the output is not larger than all inputs together"); return std::string(b, k); }
static std::vector<Rec> merge(size_t files, bool remove = false)
{
  std::vector<InputFile> in; for (size_t k = 0; k < files; ++k) in.push_back(InputFile(NAMES[k]));
  { MergeOperation op(in, "out.md5", remove); op.execute(); }
  std::string o = get("out.md5"); sx_assert(o.size() % 20 == 0, "the output consists of complete records"); std::vector<Rec> r;
  for (size_t p = 0; p + 20 <= o.size(); p += 20) { r.push_back({rd(o, p, 8), rd(o, p + 8, 8), (uint32_t)rd(o, p + 16, 4)}); sx_obs(r.back().u, "u"); sx_obs(r.back().l, "l"); sx_obs(r.back().c, "c"); }
  return r;
}
static void checkHashes(const Set &s, const std::vector<Rec> &o)
{
  for (size_t i = 1; i < o.size(); ++i) sx_assert((o[i - 1].u < o[i].u) | ((o[i - 1].u == o[i].u) & (o[i - 1].l < o[i].l)), "the output is strictly ascending");
  for (auto &r : o) { bool f = false; for (auto &v : s.f) for (auto &x : v) f |= (x.u == r.u) & (x.l == r.l); sx_assert(f, "every hash of the output comes from an input"); }
  for (auto &v : s.f) for (auto &x : v) { bool f = false; for (auto &r : o) f |= (x.u == r.u) & (x.l == r.l); sx_assert(f, "every hash of an input is in the output"); }
}
static void checkCounts(const Set &s, const std::vector<Rec> &o)
{
  for (auto &r : o) { uint32_t e = 0; for (auto &v : s.f) for (auto &x : v) e += ((x.u == r.u) & (x.l == r.l)) ? x.c : 0; sx_assert(r.c == e, "the count of a hash is the sum of its counts in the inputs"); }
}
SX_HARNESS(m01_union) { size_t f = sx_pick("files", 1, sx_bound("files", 3)); Set s = anySet(f, sx_bound("per", 3), sx_bound("total", 4), true, false); checkHashes(s, merge(f)); if (s.total() > 1) sx_reach("several"); sx_reach("done"); }
SX_HARNESS(m01_full) { Set s = anySet(2, 2, sx_bound("total", 3), false, false); checkHashes(s, merge(2)); sx_reach("done"); }
SX_HARNESS(m02_counts) { size_t f = sx_pick("files", 1, sx_bound("files", 3)); Set s = anySet(f, sx_bound("per", 3), sx_bound("total", 4), true, false); checkCounts(s, merge(f)); sx_reach("done"); }
SX_HARNESS(m02_full) { Set s = anySet(2, 2, sx_bound("total", 3), false, false); checkCounts(s, merge(2)); sx_reach("done"); }
SX_HARNESS(m03_tails)
{
  size_t f = sx_pick("files", 1, 2); Set s = anySet(f, 1, 2, true, true); auto o = merge(f); checkHashes(s, o); checkCounts(s, o);
  for (size_t k = 0; k < f; ++k) { static char b[256]; long n = sx_fs_get(NAMES[k], b, sizeof b); sx_assert(n == (long)s.raw[k].size(), "the inputs keep their size"); if (n == (long)s.raw[k].size()) sx_assert(memcmp(b, s.raw[k].data(), n) == 0, "the inputs keep their content"); }
  sx_reach("done");
}
SX_HARNESS(m03_remove)
{
  size_t f = sx_pick("files", 1, 3); Set s = anySet(f, 1, 2, true, false); auto o = merge(f, true); checkHashes(s, o); checkCounts(s, o);
  sx_assert(sx_fs_count() == 1, "the inputs are removed after merging when that is asked for"); sx_reach("done");
}
// more files, and longer ones: the hashes are fixed except for one, which may fall anywhere among them; all counts are arbitrary
static void larger(size_t files, size_t per) {
  Set s; const size_t at = sx_pick("file", 0, files < 2 ? 0 : 1) * (files - 1); const unsigned x = sx_pick("h", 0, 63); static std::string names[16];
  std::vector<InputFile> in;
  for (size_t k = 0; k < files; ++k) {
    std::vector<Rec> v; std::string b; for (size_t i = 0; i < per; ++i) { Rec r; r.u = (uint64_t)(i * 3 * files + (k * 7 % files) * 2) << 16; r.l = 9; r.c = (uint32_t)(1000 * k + i + 1); if (i % 5 == 4) r.u = (uint64_t)(i * 3 * files) << 16; v.push_back(r); }
    if (k == at && per) { Rec &r = v.back(); const uint64_t lo = per > 1 ? v[per - 2].u >> 16 : 0; r.u = (lo + 1 + x % 32) << 16; r.l = 8 + x / 32; }
    for (auto &r : v) { le(b, r.u, 8); le(b, r.l, 8); le(b, r.c, 4); }
    names[k] = "i" + std::to_string(k) + ".md5"; sx_fs_put(names[k].c_str(), b.data(), b.size()); s.f.push_back(v); in.push_back(InputFile(names[k]));
  }
  { MergeOperation op(in, "out.md5", false); op.execute(); }
  static char buf[65536]; long m = sx_fs_get("out.md5", buf, sizeof buf); if (m < 0 || m > (long)sizeof buf) sx_fail("the output file exists and is not larger than all inputs together"); std::string o(buf, m); sx_assert(m % 20 == 0, "the output consists of complete records");
  std::vector<Rec> r; for (long p = 0; p + 20 <= m; p += 20) r.push_back({rd(o, p, 8), rd(o, p + 8, 8), (uint32_t)rd(o, p + 16, 4)}); uint64_t z = r.size(); sx_obs(z, "records");
  // every record of the output is checked against the sum over all inputs in one pass (everything but one hash is fixed)
  uint64_t have = 0, want = 0; for (auto &q : r) have += q.c; for (auto &v : s.f) for (auto &q : v) want += q.c; sx_assert(have == want, "the counts of the output add up to those of the inputs");
  for (size_t i = 1; i < r.size(); ++i) sx_assert((r[i - 1].u < r[i].u) | ((r[i - 1].u == r[i].u) & (r[i - 1].l < r[i].l)), "the output is strictly ascending");
  for (auto &q : r) { uint64_t e = 0; for (auto &v : s.f) for (auto &y : v) e += ((y.u == q.u) & (y.l == q.l)) ? y.c : 0; sx_assert(q.c == e, "the count of a hash is the sum of its counts in the inputs"); }
  sx_reach("done");
}
SX_HARNESS(m01_files) { larger(sx_pick("files", 0, 1) ? 12 : 5, 2); }
SX_HARNESS(m01_long) { larger(1 + sx_pick("files", 0, 1), sx_bound("records", 40)); }
