// L06 the lookup tool
#include <sx.h>
#include <cstring>
#include <vector>
#include <pwned-lib/passwordinspector.hpp>
using pwned::Hash;
int sx_main_lookup(int argc, const char *argv[]);
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
static bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// the answers in the order they were printed: a count, or 0 for "Not found"
static std::vector<uint64_t> answers()
{
  static char t[8192]; size_t n = sx_stdout_get(t, sizeof t); if (n > sizeof t) sx_unsupported("more output than expected"); std::vector<uint64_t> r;
  for (size_t i = 0; i < n; ++i) {
    if (sx_is_symbolic((unsigned char)t[i])) continue;
    if (t[i] == 'N' && i + 9 <= n && memcmp(t + i, "Not found", 9) == 0) { r.push_back(0); i += 8; }
    else if (t[i] == 'F' && i + 6 <= n && memcmp(t + i, "Found ", 6) == 0) { uint64_t v = 0; size_t k = i + 6; for (; k < n && t[k] != ' '; ++k) { if (!((t[k] >= '0') & (t[k] <= '9'))) sx_fail("a count is printed in decimal"); v = v * 10 + (t[k] - '0'); } r.push_back(v); i = k; }
  }
  return r;
}
static void session(const size_t n, const size_t len, const bool index)
{
  struct { uint64_t u, l; uint32_t c; } d[3]; std::string f;
  for (size_t i = 0; i < n; ++i) { d[i].u = sx_any<uint64_t>("u"); d[i].l = sx_any<uint64_t>("l"); d[i].c = sx_any<uint32_t>("c"); sx_assume((d[i].c > 0) & (d[i].c < sx_bound("count", 20))); for (size_t k = i; k--;) sx_assume((d[k].u < d[i].u) | ((d[k].u == d[i].u) & (d[k].l < d[i].l))); le(f, d[i].u, 8); le(f, d[i].l, 8); le(f, d[i].c, 4); }
  sx_fs_put("db.md5", f.data(), f.size());
  if (index) { std::string s; for (uint64_t p = 0; p < 2; ++p) { uint64_t v = ~0ull; for (size_t i = n; i--;) v = (d[i].u >> 63) == p ? 20 * i : v; le(s, v, 8); } sx_fs_put("db.idx", s.data(), s.size()); }
  std::string in = sx_string("input", len); for (char c : in) sx_assume(c != 0);
  sx_stdin(in.data(), in.size());
  std::vector<uint64_t> e;
  for (size_t i = 0; i < in.size();) { if (space(in[i])) { ++i; continue; } size_t k = i; while (k < in.size() && !space(in[k])) ++k; uint8_t m[16]; sx_md5(in.data() + i, k - i, m); uint64_t u = 0, l = 0; for (int b = 0; b < 8; ++b) { u = u << 8 | m[b]; l = l << 8 | m[8 + b]; } uint64_t v = 0; for (size_t j = 0; j < n; ++j) v += ((d[j].u == u) & (d[j].l == l)) ? d[j].c : 0; e.push_back(v); i = k; }
  const char *av[] = {"pwned-lookup-cli", "--input", "db.md5", "--index", "db.idx", nullptr};
  int r = sx_main_lookup(index ? 5 : 3, av);
  sx_assert(r == 0, "the session ends successfully at the end of the input");
  std::vector<uint64_t> a = answers();
  sx_assert(a.size() == e.size(), "each word of the input is answered once"); if (a.size() != e.size()) return;
  for (size_t i = 0; i < a.size(); ++i) { sx_obs(a[i], "answer"); sx_assert(a[i] == e[i], "the answer is the count stored for the MD5 digest of the word"); if (e[i]) sx_reach("hit"); }
  if (a.size() > 1) sx_reach("two"); sx_reach("done");
}
// counts of any size, words of any length
SX_HARNESS(l06_large) {
  static const uint32_t C[] = {20, 100, 255, 256, 65535, 65536, 2147483647u, 2147483648u, 4294967295u}; static const unsigned N[] = {31, 32, 63, 64, 127, 128, 255, 256, 1000, 1024, 5000}; const unsigned n = N[sx_pick("len", 0, 10)]; const uint32_t c = C[sx_pick("count", 0, 8)];
  std::string w(n, 'w'); w[n - 1] = sx_any<char>("c"); sx_assume((w[n - 1] != 0) & !space(w[n - 1])); uint8_t m[16]; sx_md5(w.data(), n, m); std::string f; for (int i = 7; i >= 0; --i) f.push_back((char)m[i]); for (int i = 15; i >= 8; --i) f.push_back((char)m[i]); le(f, c, 4); sx_fs_put("db.md5", f.data(), f.size()); w += '\n'; sx_stdin(w.data(), w.size());
  const char *av[] = {"pwned-lookup-cli", "--input", "db.md5", nullptr}; sx_assert(sx_main_lookup(3, av) == 0, "the session ends successfully at the end of the input"); std::vector<uint64_t> a = answers(); sx_assert(a.size() == 1, "each word of the input is answered once"); if (a.size() != 1) return; sx_obs(a[0], "answer"); sx_assert(a[0] == c, "the answer is the count stored for the MD5 digest of the word"); sx_reach("done");
}
SX_HARNESS(l06_session) { session(sx_pick("records", 0, sx_bound("n", 1)), sx_pick("len", 0, sx_bound("len", 3)), false); }
SX_HARNESS(l06_index) { session(sx_pick("records", 0, 2), sx_pick("len", 0, sx_bound("len", 1)), true); }
// nor does a database that cannot be read from some position on answer anything that is not so
SX_HARNESS(l06_read)
{
  std::string f, x; uint64_t tops[2]; const unsigned n = sx_pick("records", 1, 2), which = sx_pick("which", 0, n - 1); for (unsigned i = 0; i < n; ++i) { uint8_t m[16]; sx_md5(i == which ? "p" : "q", 1, m); uint64_t u = 0, l = 0; for (int b = 0; b < 8; ++b) { u = u << 8 | m[b]; l = l << 8 | m[8 + b]; } tops[i] = u; if (i) sx_assume(tops[0] < u); le(f, u, 8); le(f, l, 8); le(f, 5 + i, 4); } sx_fs_put("db.md5", f.data(), f.size()); for (uint64_t p = 0; p < 2; ++p) { uint64_t v = ~0ull; for (unsigned i = n; i--;) v = (tops[i] >> 63) == p ? 20 * i : v; le(x, v, 8); } sx_fs_put("db.idx", x.data(), x.size());
  const bool index = sx_pick("index", 0, 1), other = index & sx_pick("other", 0, 1); sx_stdin("p\n", 2); static const long P[] = {0, 1, 8, 16, 19, 20, 36}; const long p = P[sx_pick("position", 0, 6)]; sx_fault_read(other ? "db.idx" : "db.md5", other ? p / 8 * 8 : p); const char *av[] = {"pwned-lookup-cli", "--input", "db.md5", "--index", "db.idx", nullptr}; if (!index) av[3] = nullptr;
  const int r = sx_main_lookup(index ? 5 : 3, av); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); auto a = answers(); sx_obs(r != 0, "status"); if (r) { sx_assert(hit, "the session ends successfully at the end of the input"); sx_assert(a.empty(), "there are no answers from a database that cannot be read"); sx_reach("failed"); } else sx_assert(a.size() == 1 && a[0] == 5 + which, "the answer is the count stored for the MD5 digest of the word"); sx_reach("done");
}
// a database that cannot be opened gives no answers; without its index a lookup still works
SX_HARNESS(l06_nodatabase)
{
  std::string f, x; uint8_t m[16]; sx_md5("p", 1, m); for (int b = 8; b--;) f += (char)m[b]; for (int b = 16; b-- > 8;) f += (char)m[b]; le(f, 5, 4); sx_fs_put("db.md5", f.data(), f.size()); le(x, 0, 8); le(x, 0, 8); sx_fs_put("db.idx", x.data(), x.size());
  const unsigned k = sx_pick("open", 1, 2), index = k == 2 || sx_pick("index", 0, 1); sx_stdin("p\n", 2); sx_fault_file(k == 1 ? "db.md5" : "db.idx"); const char *av[] = {"pwned-lookup-cli", "--input", "db.md5", "--index", "db.idx", nullptr}; if (!index) av[3] = nullptr;
  const int r = sx_main_lookup(index ? 5 : 3, av); sx_fault_file(nullptr); auto a = answers(); if (k == 1) { sx_assert(a.empty(), "there are no answers from a database that cannot be read"); sx_assert(r != 0, "that is reported"); } else if (r == 0) { sx_assert(a.size() == 1 && a[0] == 5, "without its index a lookup still works"); } sx_reach("done");
}
