// K01 conversion conserves passwords, K02 existing files, K04 convert-merge-lookup
#include <sx.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <vector>
#include <boost/filesystem.hpp>
#include <pwned-lib/hash.hpp>
#include <pwned-lib/operationexception.hpp>
#include <pwned-lib/userpasswordreader.hpp>
#include "pwned-converter-cli/convertoperation.hpp"
namespace fs = boost::filesystem; using pwned::Hash;
struct Rec { uint64_t u, l; uint32_t c; };
static uint64_t rd(const std::string &s, size_t p, int k) { uint64_t v = 0; for (int i = k; i--;) v = v << 8 | (unsigned char)s[p + i]; return v; }
static std::string get(const std::string &n) { static char b[4096]; long k = sx_fs_get(n.c_str(), b, sizeof b); if (k < 0 || k > (long)sizeof b) sx_fail("an output file is readable and not larger than all passwords"); return std::string(b, k); }
static std::vector<std::string> files(const char *dir) { std::vector<std::string> v; for (fs::directory_iterator i{fs::path(dir)}, e; i != e; ++i) v.push_back(i->path().string()); std::sort(v.begin(), v.end()); return v; }
static std::vector<Rec> records(const std::string &o) {
  sx_assert(o.size() % 20 == 0, "the output consists of complete records"); std::vector<Rec> r;
  for (size_t p = 0; p + 20 <= o.size(); p += 20) { r.push_back({rd(o, p, 8), rd(o, p + 8, 8), (uint32_t)rd(o, p + 16, 4)}); sx_obs(r.back().c, "count"); }
  for (size_t i = 1; i < r.size(); ++i) sx_assert((r[i - 1].u < r[i].u) | ((r[i - 1].u == r[i].u) & (r[i - 1].l < r[i].l)), "every output file is strictly ascending");
  return r;
}
// passwords of a text without separators: its lines
static void lines(const std::string &t, std::vector<std::string> &pw) { std::string l; for (char c : t) { if (c == '\n') { if (!l.empty()) pw.push_back(l); l.clear(); } else l.push_back(c); } if (!l.empty()) pw.push_back(l); }
static std::string anyText(const char *nm, size_t lo, size_t hi) { std::string t = sx_string(nm, sx_pick("len", lo, hi)); for (char &c : t) { sx_assume((c == 'a') | (c == 'b') | (c == '\n')); c = (char)sx_choose((unsigned char)c); } return t; }
// the records of all files together stand for exactly these passwords
static void conserved(const std::vector<std::vector<Rec>> &fs_, const std::vector<std::string> &pw) {
  uint64_t sum = 0; for (auto &f : fs_) for (auto &r : f) { sx_assert(r.c > 0, "no count is zero"); sum += r.c; }
  sx_assert(sum == pw.size(), "the counts of all records add up to the number of passwords");
  std::vector<Hash> hs; for (auto &p : pw) hs.push_back(Hash(p));
  for (auto &h : hs) {
    uint64_t want = 0, have = 0; for (auto &g : hs) if ((g.quad.upper == h.quad.upper) & (g.quad.lower == h.quad.lower)) ++want;
    for (auto &f : fs_) for (auto &r : f) if ((r.u == h.quad.upper) & (r.l == h.quad.lower)) have += r.c;
    sx_assert(have == want, "the counts of a hash add up to the occurrences of its passwords");
  }
}
static std::vector<std::vector<Rec>> outputs(const std::vector<std::string> &skip = {}) { std::vector<std::vector<Rec>> v; for (auto &f : files("out")) if (std::find(skip.begin(), skip.end(), f) == skip.end()) v.push_back(records(get(f))); return v; }
static void convert(const char *src, uint64_t mem) { ConvertOperation op(src, "out", ".md5", mem, {}); op.start(); }
SX_HARNESS(k01_limits)
{
  std::string t = anyText("text", 0, sx_bound("len", 5)); uint16_t mem = sx_any<uint16_t>("mem"); sx_assume(mem < 400);
  sx_fs_put("in.txt", t.data(), t.size()); fs::create_directory("out"); convert("in.txt", mem);
  std::vector<std::string> pw; lines(t, pw); auto o = outputs(); conserved(o, pw);
  std::string k = get("in.txt"); sx_assert(k.size() == t.size() && memcmp(k.data(), t.data(), t.size()) == 0, "the input is kept");
  if (o.size() > 1) sx_reach("split"); sx_reach("done");
}
// more passwords, any memory limit
SX_HARNESS(k01_many)
{
  sx_md5_real(1); static const unsigned N[] = {5, 14, 48}; const unsigned size = sx_pick("size", 0, 2), n = N[size], first = sx_pick("first", 0, 2), mid = sx_pick("mid", 0, 2), last = sx_pick("last", 0, 2); std::string t; std::vector<std::string> pw;
  for (unsigned i = 0; i < n; ++i) { const unsigned k = i == 0 ? first : i == n / 2 ? mid : i == n - 1 ? last : size == 2 && i % 2 ? i + 30 : (i * i + 3 * i) % 23; std::string p = k == 2 ? "\x80\xff" : "p" + std::to_string(k); pw.push_back(p); t += "me@site:" + p + (i + 1 < n ? "\n" : ""); }
  uint64_t mem = 1 << 30; if (sx_pick("limited", 0, 1)) { const uint16_t m = sx_any<uint16_t>("mem"); sx_assume((m > (size == 2 ? 250 : 50)) & (m < 1000)); mem = m; } sx_fs_put("in.txt", t.data(), t.size()); fs::create_directory("out"); convert("in.txt", mem); auto o = outputs(); conserved(o, pw); if (mem == 1 << 30) sx_assert(o.size() == 1, "there is one output file if everything fits into memory"); if (o.size() > 1) sx_reach("split"); sx_reach("done");
}
// arbitrary lines and a limit that never applies
SX_HARNESS(k01_text)
{
  size_t n = sx_pick("lines", 0, sx_bound("lines", 3)); std::string t; std::vector<std::string> pw;
  for (size_t i = 0; i < n; ++i) { std::string p = sx_string("pw", sx_pick("len", 0, n < 3 ? 2 : 1)); for (char c : p) sx_assume((c != '\n') & (c != '\r') & (c != ':') & (c != ';') & (c != '\t') & (c != ' ')); t += "user:" + p + "\r\n"; if (!p.empty()) pw.push_back(p); }
  sx_fs_put("in.txt", t.data(), t.size()); fs::create_directory("out"); convert("in.txt", 1 << 30);
  auto o = outputs(); sx_assert(o.size() <= 1, "there is one output file if everything fits into memory"); conserved(o, pw); sx_reach("done");
}
// whatever is in the output directory stays as it is, and nothing gets lost because of it
SX_HARNESS(k02_existing)
{
  const unsigned first = sx_pick("existing", 0, sx_bound("existing", 7)); uint8_t old = sx_any<uint8_t>("old"); static const char *N[] = {"out/in-0001.md5", "out/in-0001-0001.md5", "out/in-0002.md5", "out/in-0001-0002.md5"};
  std::string t = anyText("text", 1, sx_bound("len", 3)); uint16_t mem = sx_any<uint16_t>("mem"); sx_assume(mem < 300);
  const unsigned less = sx_pick("empty", 0, 1);   // the first one is an empty file
  fs::create_directory("out"); std::vector<std::string> skip; for (int i = 0; i < 4; ++i) if (first >> i & 1) { std::string c(i + 1 - less, (char)old); sx_fs_put(N[i], c.data(), c.size()); skip.push_back(N[i]); }
  sx_fs_put("in.txt", t.data(), t.size()); convert("in.txt", mem);
  for (auto &f : skip) { std::string c = get(f); sx_assert(c.size() == size_t(std::find(N, N + 4, f) - N) + 1 - less, "an existing file keeps its size"); sx_assert(c.empty() || (unsigned char)c[0] == old, "an existing file keeps its content"); }
  std::vector<std::string> pw; lines(t, pw); conserved(outputs(skip), pw); sx_reach("done");
}
// any number of existing files
SX_HARNESS(k02_many)
{
  const unsigned n = sx_pick("existing", 1, sx_bound("existing", 3)) * 6; char c = sx_any<char>("c"); sx_assume((c != '\n') & (c != '\r') & (c != ':') & (c != ';') & (c != '\t') & (c != ' ')); fs::create_directory("out"); std::vector<std::string> skip; char b[48];
  for (unsigned i = 0; i < n; ++i) { if (i) snprintf(b, sizeof b, "out/in-0001-%04x.md5", i - 1); else snprintf(b, sizeof b, "out/in-0001.md5"); skip.push_back(b); sx_fs_put(b, b, 8 + i % 3); }
  std::string t = "pw\n"; t += c; sx_fs_put("in.txt", t.data(), t.size()); convert("in.txt", 1 << 30); for (auto &f : skip) sx_assert(get(f) == f.substr(0, 8 + (&f - &skip[0]) % 3), "an existing file keeps its content");
  conserved(outputs(skip), {"pw", std::string(1, c)}); sx_reach("done");
}
// several inputs of the same name
SX_HARNESS(k02_samename)
{
  std::string a = anyText("a", 0, 3), b = anyText("b", 0, sx_bound("b", 1)); fs::create_directory("out"); fs::create_directory("x"); fs::create_directory("y"); sx_fs_put("x/in.txt", a.data(), a.size()); sx_fs_put("y/in.txt", b.data(), b.size());
  uint16_t mem = sx_any<uint16_t>("mem"); sx_assume(mem < 200);
  convert("x/in.txt", mem); convert("y/in.txt", mem); std::vector<std::string> pw; lines(a, pw); lines(b, pw); conserved(outputs(), pw); sx_reach("done");
}
// an output directory that cannot be written to is reported
SX_HARNESS(k02_unwritable)
{
  std::string t = anyText("text", 0, 3); sx_fs_put("in.txt", t.data(), t.size()); std::vector<std::string> pw; lines(t, pw);
  ConvertOperation op("in.txt", "nowhere", ".md5", 1 << 20, {}); bool thrown = false; try { op.execute(); } catch (pwned::OperationException &) { thrown = true; }
  sx_assert(thrown == !pw.empty(), "passwords that cannot be written are not lost silently"); sx_reach("done");
}
// one password many times
SX_HARNESS(k01_often)
{
  static const unsigned N[] = {257, 130, 255, 256, 513, 65537}; const unsigned n = N[sx_pick("times", 0, sx_bound("times", 0))]; char c = sx_any<char>("c"); sx_assume((c != '\n') & (c != '\r') & (c != ':') & (c != ';') & (c != '\t') & (c != ' '));
  std::string t; for (unsigned i = 0; i < n; ++i) t += "a\n"; t += c; sx_fs_put("in.txt", t.data(), t.size()); fs::create_directory("out"); convert("in.txt", 1 << 30);
  auto o = outputs(); sx_assert(o.size() == 1, "there is one output file if everything fits into memory"); if (o.size() != 1) return; Hash a("a"), e(std::string(1, c)); uint64_t na = 0, sum = 0; for (auto &r : o[0]) { sum += r.c; if ((r.u == a.quad.upper) & (r.l == a.quad.lower)) na += r.c; }
  sx_assert(sum == n + 1, "the counts of all records add up to the number of passwords"); const bool same = (a.quad.upper == e.quad.upper) & (a.quad.lower == e.quad.lower); sx_assert(na == n + (same ? 1 : 0), "the counts of a hash add up to the occurrences of its passwords"); sx_reach("done");
}
