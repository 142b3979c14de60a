// E01 test sets, E02 passwords of a directory, E03 records of the other byte order
#include <sx.h>
#include <cstring>
#include <vector>
#include <set>
#include <boost/filesystem.hpp>
#include <pwned-lib/hash.hpp>
using pwned::Hash;
int sx_main_testset(int, const char **); int sx_main_passwords(int, const char **); int sx_main_be2le(int, const char **);
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
static std::string file(const char *name) { static char t[4096]; long n = sx_fs_get(name, t, sizeof t); if (n < 0 || n > (long)sizeof t) return "<none>"; return std::string(t, n); }
static bool same(const std::string &a, const std::string &b) { bool r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) r = r & (a[i] == b[i]); return r; }
static int run(int (*f)(int, const char **), std::vector<const char *> a) { a.push_back(nullptr); return f((int)a.size() - 1, a.data()); }
static std::vector<std::string> database(size_t n) {   // sorted, without duplicates
  std::vector<std::string> d; uint64_t u[16], l[16];
  for (size_t i = 0; i < n; ++i) { u[i] = sx_any<uint64_t>("u"); l[i] = sx_any<uint64_t>("l"); uint32_t c = sx_any<uint32_t>("c"); for (size_t k = i; k--;) sx_assume((u[k] < u[i]) | ((u[k] == u[i]) & (l[k] < l[i]))); std::string s; le(s, u[i], 8); le(s, l[i], 8); le(s, c, 4); d.push_back(s); }
  std::string f; for (auto &s : d) f += s; const size_t tail = sx_pick("tail", 0, 1) ? 7 : 0; f += std::string(tail, 'x'); sx_fs_put("in.md5", f.data(), f.size()); return d;
}
#ifdef E01
SX_HARNESS(e01_existing) {
  const size_t n = sx_pick("records", 0, sx_bound("records", 4)), want = sx_pick("num", 1, 6); std::vector<std::string> d = database(n); const std::string num = std::to_string(want);
  sx_assert(run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", num.c_str()}) == 0, "test sets are extracted"); const std::string o = file("out.md5");
  sx_assert(o.size() % 20 == 0, "complete records"); const size_t m = o.size() / 20; sx_assert(m == (n < want ? n : want), "as many records as asked for, all of them if there are fewer");
  size_t at = 0; for (size_t i = 0; i < m; ++i) { const std::string r = o.substr(20 * i, 20); while (at < n && !same(d[at], r)) ++at; sx_assert(at < n, "different records of the input, in its order"); ++at; }
  sx_obs_str(o, "output"); if (m > 1) sx_reach("several"); sx_reach("done");
}
SX_HARNESS(e01_missing) {   // hashes that do not exist in the input
  const size_t n = sx_pick("records", 0, sx_bound("records", 1)); std::vector<std::string> d = database(n);
  sx_assert(run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", "2", "--non-existent"}) == 0, "test sets are extracted"); const std::string o = file("out.md5"); sx_assert(o.size() % 20 == 0 && o.size() <= 40, "complete records"); if (n == 0) sx_assert(o.size() == 40, "as many as asked for");
  for (size_t i = 0; i < o.size(); i += 20) { for (auto &s : d) { bool zero = (s[16] | s[17] | s[18] | s[19]) == 0; sx_assert(zero | !same(s.substr(0, 16), o.substr(i, 16)), "a hash that is not in the input"); } sx_assert(same(o.substr(i + 16, 4), std::string(4, '\0')), "its count is 0"); }
  sx_reach("done");
}
SX_HARNESS(e01_urls) {
  std::string f; const uint8_t v = sx_any<uint8_t>("v"); const uint64_t u = 0x0123456789abcdefull ^ (uint64_t)v << 36; le(f, u, 8); le(f, 0xfedcba9876543210ull, 8); le(f, 3, 4); sx_fs_put("in.md5", f.data(), f.size());
  sx_assert(run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.txt", "--num", "1", "--test-urls", "--test-url-prefix", "http://h/?hash="}) == 0, "addresses are extracted");
  std::string e = "http://h/?hash="; for (int k = 60; k >= 0; k -= 4) { uint8_t x = u >> k & 15; e += (char)(x + (x < 10 ? '0' : 'a' - 10)); } e += "fedcba9876543210\n"; sx_assert(same(file("out.txt"), e), "one address for each hash"); sx_reach("done");
}
SX_HARNESS(e01_refused) {
  database(1); const std::string keep = "former"; sx_fs_put("out.md5", keep.data(), keep.size()); const unsigned what = sx_pick("what", 0, 4); int rc = 0;
  if (what == 0) rc = run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", "0"});
  if (what == 1) rc = run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", "-1"});
  if (what == 2) rc = run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", "x"});
  if (what == 3) rc = run(sx_main_testset, {"extract", "--input", "none.md5", "--output", "out.md5"});
  if (what == 4) rc = run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "none/out.md5"});
  sx_assert(rc != 0, "what cannot be done is reported"); sx_assert(same(file("out.md5"), keep), "a former file is kept"); sx_reach("done");
}
SX_HARNESS(e01_many) {   // more records than usual
  static const unsigned N[] = {10, 21, 37, 64}; const unsigned n = N[sx_pick("records", 0, 3)], want = sx_pick("num", 1, 70); std::string f; const unsigned at = sx_pick("at", 0, 1) ? n - 1 : n / 2; for (unsigned i = 0; i < n; ++i) { le(f, i * 3 + 1, 8); if (i == at) le(f, sx_any<uint64_t>("l"), 8); else le(f, i, 8); le(f, i + 1, 4); } sx_fs_put("in.md5", f.data(), f.size()); const std::string num = std::to_string(want);
  sx_assert(run(sx_main_testset, {"extract", "--input", "in.md5", "--output", "out.md5", "--num", num.c_str()}) == 0, "test sets are extracted"); const std::string o = file("out.md5");
  sx_assert(o.size() % 20 == 0, "complete records"); const size_t m = o.size() / 20; sx_assert(m == (n < want ? n : want), "as many records as asked for, all of them if there are fewer");
  size_t at2 = 0; for (size_t i = 0; i < m; ++i) { while (at2 < n && !same(f.substr(20 * at2, 20), o.substr(20 * i, 20))) ++at2; sx_assert(at2 < n, "different records of the input, in its order"); ++at2; } sx_reach("done");
}
static void faults(unsigned opens) { const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 1, 19, 20, 21, 39, 40}; if (what == 1) sx_fault(sx_pick("open", 1, opens), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 6)]); }
SX_HARNESS(e01_faults) {   // whatever cannot be opened or written, a test set reported as extracted is complete
  std::vector<std::string> d = database(3); const std::string before = file("in.md5"); const unsigned missing = sx_pick("missing", 0, 1); faults(missing ? 4 : 3); std::vector<const char *> v = {"extract", "--input", "in.md5", "--output", "out.md5", "--num", "2"}; if (missing) v.push_back("--non-existent");
  const int rc = run(sx_main_testset, v); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1); sx_assert(same(file("in.md5"), before), "the database is kept"); sx_obs(rc != 0, "status"); sx_reach("done"); if (rc) { sx_assert(hit, "test sets are extracted"); sx_reach("failed"); return; }
  const std::string o = file("out.md5"); sx_assert(missing ? o.size() % 20 == 0 && o.size() <= 40 : o.size() == 40, "complete records, as many as asked for"); if (!missing) { size_t at = 0; for (size_t i = 0; i < 2; ++i) { while (at < 3 && !same(d[at], o.substr(20 * i, 20))) ++at; sx_assert(at < 3, "different records of the input, in its order"); ++at; } }
  else for (size_t i = 0; i < o.size(); i += 20) for (auto &s : d) { bool zero = (s[16] | s[17] | s[18] | s[19]) == 0; sx_assert(zero | !same(s.substr(0, 16), o.substr(i, 16)), "a hash that is not in the input"); }
}
SX_HARNESS(e01_read) {   // a database that cannot be read from some position on
  std::vector<std::string> d = database(3); const unsigned missing = sx_pick("missing", 0, 1); static const long P[] = {0, 1, 16, 19, 20, 39, 40, 59, 60}; std::vector<const char *> v = {"extract", "--input", "in.md5", "--output", "out.md5", "--num", sx_pick("all", 0, 1) ? "3" : "2"}; if (missing) v.push_back("--non-existent"); sx_fault_read("in.md5", P[sx_pick("position", 0, 8)]);
  const int rc = run(sx_main_testset, v); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); sx_obs(rc != 0, "status"); sx_reach("done"); if (rc) { sx_assert(hit, "test sets are extracted"); sx_reach("failed"); return; }
  const size_t n = v[6][0] - '0'; const std::string o = file("out.md5"); sx_assert(missing ? o.size() % 20 == 0 && o.size() <= 20 * n : o.size() == 20 * n, "complete records, as many as asked for"); if (!missing) { size_t at = 0; for (size_t i = 0; i < n; ++i) { while (at < 3 && !same(d[at], o.substr(20 * i, 20))) ++at; sx_assert(at < 3, "different records of the input, in its order"); ++at; } }
  else for (size_t i = 0; i < o.size(); i += 20) for (auto &s : d) { bool zero = (s[16] | s[17] | s[18] | s[19]) == 0; sx_assert(zero | !same(s.substr(0, 16), o.substr(i, 16)), "a hash that is not in the input"); }
}
SX_HARNESS(e01_own) { database(2); const std::string before = file("in.md5"); sx_assert(run(sx_main_testset, {"extract", "--input", "in.md5", "--output", sx_pick("name", 0, 1) ? "./in.md5" : "in.md5", "--num", "1"}) != 0, "the database cannot be the test set"); sx_assert(same(file("in.md5"), before), "the database is kept"); sx_reach("done"); }
#endif
#ifdef E02
#include <bzlib.h>
static std::string unpack(bool packed, const std::string &s) { if (!packed || s == "<none>") return s; static char t[512]; unsigned n = sizeof t; return BZ2_bzBuffToBuffDecompress(t, &n, const_cast<char *>(s.data()), (unsigned)s.size(), 0, 0) == BZ_OK ? std::string(t, n) : "<broken>"; }
static void tree() { boost::filesystem::create_directory("src"); boost::filesystem::create_directory("src/sub"); }
static std::string words(std::string &out, unsigned max) { std::string t; const unsigned n = sx_pick("lines", 0, max); for (unsigned i = 0; i < n; ++i) { const size_t k = sx_pick("len", 0, 2); std::string p = sx_string("p", k); for (char c : p) sx_assume((c != ' ') & (c != ':') & (c != ';') & (c != '\t') & (c != '\r') & (c != '\n')); t += "u:" + p + "\n"; if (k) out += p + "\n"; } return t; }
SX_HARNESS(e02_passwords) {
  const unsigned ready = sx_pick("ready", 0, 2); std::string a, b; tree(); const std::string x = words(a, sx_bound("lines", 2)), y = words(b, 1); sx_fs_put("src/x.txt", x.data(), x.size()); sx_fs_put("src/sub/y.txt", y.data(), y.size()); sx_fs_put("src/z.dat", "u:zzz\n", 6);
  const std::string done = "src/x.txt\n"; if (ready) sx_fs_put(".ready", done.data(), done.size());
  std::vector<const char *> v = {"extract", "--source", "src", "--output", "out.txt"}; if (ready == 2) v.push_back("--ignore-ready"); const bool packed = ready != 1 && sx_pick("compress", 0, 1); if (packed) v.push_back("--compress"); sx_assert(run(sx_main_passwords, v) == 0, "passwords are extracted");
  const std::string o = unpack(packed, file("out.txt")), r = file(".ready"); const bool skip = ready == 1; sx_assert(skip ? same(o, b) : same(o, a + b) || same(o, b + a), "each password of the files not yet processed is written once, on a line of its own");
  std::multiset<std::string> l; for (size_t i = 0, k; i < r.size(); i = k + 1) { k = r.find('\n', i); if (k == std::string::npos) break; l.insert(r.substr(i, k - i)); }
  sx_assert(l.size() == 2 && l.count("src/x.txt") == 1 && l.count("src/sub/y.txt") == 1, "the files processed are listed once"); sx_assert(same(file("src/x.txt"), x), "the input is kept"); sx_obs_str(o, "output"); if (skip) sx_reach("skipped"); sx_reach("done");
}
SX_HARNESS(e02_refused) {
  tree();  sx_fs_put("src/x.txt", "u:p\n", 4); sx_fs_put("out.txt", "former", 6); const unsigned what = sx_pick("what", 0, 1); int rc;
  if (what == 0) { const std::string in = std::string(1, sx_any<char>("answer")) + "\n"; sx_assume((in[0] != 'y') & (in[0] > ' ')); sx_stdin(in.data(), in.size()); rc = run(sx_main_passwords, {"extract", "--source", "src", "--output", "out.txt"}); }
  else rc = run(sx_main_passwords, {"extract", "--source", "src", "--output", "out.txt", "--no-such-option"});
  sx_assert(rc != 0 && same(file("out.txt"), "former"), "an existing file is only overwritten if the user agrees"); sx_reach("done");
}
static bool listed(const std::string &r, const std::string &n) { for (size_t i = 0, k; i < r.size(); i = k + 1) { k = r.find('\n', i); if (k == std::string::npos) return false; if (r.substr(i, k - i) == n) return true; } return false; }
// whatever cannot be opened or written, files are only listed as processed if their passwords have been written
static std::string word(std::string &out) { const size_t k = 1 + sx_pick("len", 0, 1); std::string p(k, 'q'); p[0] = sx_any<char>("p"); sx_assume((p[0] > ' ') & (p[0] != ':') & (p[0] != ';')); out += p + "\n"; return "u:" + p + "\n"; }
SX_HARNESS(e02_faults) {
  tree(); std::string a, b; const std::string x = word(a) + "u:no\n", y = word(b); a += "no\n"; sx_fs_put("src/x.txt", x.data(), x.size()); sx_fs_put("src/sub/y.txt", y.data(), y.size()); const unsigned what = sx_pick("fault", 0, 2); const bool packed = sx_pick("compress", 0, 1); std::vector<const char *> v{"extract", "--source", "src", "--output", "out.txt"}; if (packed) v.push_back("--compress"); if (what == 1) sx_fault(sx_pick("open", 1, 6), -1); if (what == 2) sx_fault(0, packed ? (long)sx_pick("limit", 0, 2) : (long)sx_pick("limit", 0, 12) * 2);
  const int rc = run(sx_main_passwords, v); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1); const std::string o = unpack(packed, file("out.txt")), r = file(".ready"); const bool lx = listed(r, "src/x.txt"), ly = listed(r, "src/sub/y.txt");
  if (lx & ly) sx_assert(same(o, a + b) || same(o, b + a), "what is listed as processed is written"); if (lx & !ly) sx_assert(same(o.substr(0, a.size()), a) || (same(o.substr(0, b.size()), b) && same(o.substr(b.size()), a)), "what is listed as processed is written"); if (ly & !lx) sx_assert(same(o.substr(0, b.size()), b) || (same(o.substr(0, a.size()), a) && same(o.substr(a.size()), b)), "what is listed as processed is written");
  if (!hit) sx_assert(rc == 0 && lx && ly, "passwords are extracted"); if (rc == 0 && what == 2) sx_assert(same(o, a + b) || same(o, b + a), "a run reported as successful has written every password"); if (rc) sx_reach("failed"); sx_assert(same(file("src/x.txt"), x) && same(file("src/sub/y.txt"), y), "the input is kept"); sx_obs(rc != 0, "status"); sx_reach("done");
}
SX_HARNESS(e02_read) {   // a file that cannot be read from some position on
  tree(); std::string a, b; const std::string x = word(a) + "u:no\n", y = word(b); a += "no\n"; sx_fs_put("src/x.txt", x.data(), x.size()); sx_fs_put("src/sub/y.txt", y.data(), y.size()); const bool first = sx_pick("file", 0, 1); std::vector<const char *> v{"extract", "--source", "src", "--output", "out.txt"}; if (sx_pick("compress", 0, 1)) v.push_back("--compress"); sx_fault_read(first ? "src/x.txt" : "src/sub/y.txt", (long)sx_pick("position", 0, first ? x.size() : y.size()));
  const int rc = run(sx_main_passwords, v); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); const std::string o = unpack(v.size() > 5, file("out.txt")), r = file(".ready"); const bool lx = listed(r, "src/x.txt"), ly = listed(r, "src/sub/y.txt"); sx_obs(rc != 0, "status"); sx_assert(hit || (lx & ly), "the files processed are listed");
  if (lx & ly) sx_assert(same(o, a + b) || same(o, b + a), "what is listed as processed is written"); else { sx_reach("skipped"); sx_assert(!(first ? lx : ly), "what is listed as processed is written"); std::vector<std::string> p{a, b, b + a, a + b}; if (first) { p.push_back("no\n"); p.push_back("no\n" + b); p.push_back(b + a.substr(0, a.size() - 3)); p.push_back(a.substr(0, a.size() - 3) + b); p.push_back(a.substr(0, a.size() - 3)); } p.push_back(""); bool some = false; for (auto &s : p) some = some | same(o, s); sx_assert(some, "nothing else than passwords is written"); if (rc == 0) sx_assert(first ? ly : lx, "the other file is processed"); }
  sx_reach("done");
}
// a file is not listed as processed before its passwords have left the program
static std::string words1, words2; static unsigned checked; static bool packed;
static std::string disk(const char *name) { static char t[256]; long n = sx_fs_disk(name, t, sizeof t); return n < 0 || n > (long)sizeof t ? std::string() : std::string(t, n); }
static void look() { const std::string r = disk(".ready"), o = unpack(packed, disk("out.txt")); size_t need = 0; if (listed(r, "src/x.txt")) need += words1.size(); if (listed(r, "src/sub/y.txt")) need += words2.size(); if (need) ++checked; sx_assert(o != "<broken>" || !need, "a file is not listed as processed before its passwords have been written"); sx_assert(o.size() >= need, "a file is not listed as processed before its passwords have been written"); }
SX_HARNESS(e02_crash) {
  tree(); const std::string x = word(words1) + word(words1), y = word(words2); sx_fs_put("src/x.txt", x.data(), x.size()); sx_fs_put("src/sub/y.txt", y.data(), y.size()); packed = sx_pick("compress", 0, 1); sx_written = look; std::vector<const char *> v{"extract", "--source", "src", "--output", "out.txt"}; if (packed) v.push_back("--compress");
  const int rc = run(sx_main_passwords, v); sx_written = nullptr; sx_assert(rc == 0, "passwords are extracted"); if (checked) sx_reach("checked"); sx_reach("done");
}
SX_HARNESS(e02_own) { tree(); std::string a; const std::string x = words(a, 1); sx_fs_put("src/x.txt", x.data(), x.size()); sx_fs_put("src/sub/y.txt", "u:p\n", 4); sx_stdin("y\n", 2); static const char *const N[] = {"src/x.txt", "./src/x.txt", "src/sub/y.txt"}; sx_assert(run(sx_main_passwords, {"extract", "--source", "src", "--output", N[sx_pick("name", 0, 2)]}) != 0, "an input cannot be the output"); sx_assert(same(file("src/x.txt"), x) && file("src/sub/y.txt") == "u:p\n", "the input is kept"); sx_reach("done"); }
#endif
#ifdef E03
SX_HARNESS(e03_swap) {
  const size_t n = sx_pick("records", 0, sx_bound("records", 3)), tail = sx_pick("tail", 0, 1) ? 7 : 0; std::string s, e;
  for (size_t i = 0; i < n; ++i) { std::string r = sx_string("record", 20); s += r; for (int h = 0; h < 16; h += 8) for (int k = 7; k >= 0; --k) e += r[h + k]; e += r.substr(16); }
  s += std::string(tail, 'x'); sx_fs_put("be.md5", s.data(), s.size()); sx_assert(run(sx_main_be2le, {"be2le", "be.md5", "le.md5"}) == 0, "converting succeeds"); sx_assert(same(file("le.md5"), e), "each record is converted once, and nothing else is written"); sx_assert(same(file("be.md5"), s), "the input is kept"); sx_obs_str(file("le.md5"), "output"); sx_reach("done");
}
SX_HARNESS(e03_many) {
  const size_t n = sx_pick("size", 0, 1) ? 150 : 33; std::string s, e; for (size_t i = 0; i < n; ++i) { std::string r; le(r, i * 0x0101030507090b0dull, 8); le(r, ~i, 8); le(r, i << 20 | i, 4); if (i == n - 1) r[sx_pick("at", 0, 19)] = sx_any<char>("c"); s += r; for (int h = 0; h < 16; h += 8) for (int k = 7; k >= 0; --k) e += r[h + k]; e += r.substr(16); }
  sx_fs_put("be.md5", s.data(), s.size()); sx_assert(run(sx_main_be2le, {"be2le", "be.md5", "le.md5"}) == 0, "converting succeeds"); sx_assert(same(file("le.md5"), e), "each record is converted once, and nothing else is written"); sx_reach("done");
}
SX_HARNESS(e03_refused) { const unsigned what = sx_pick("what", 0, 2); sx_fs_put("be.md5", "x", 1); if (what == 0) sx_fs_put("le.md5", "former", 6); int rc = what == 0 ? run(sx_main_be2le, {"be2le", "none.md5", "le.md5"}) : what == 1 ? run(sx_main_be2le, {"be2le", "be.md5", "none/le.md5"}) : run(sx_main_be2le, {"be2le", "be.md5"}); sx_assert(rc != 0, "what cannot be done is reported"); if (what == 0) sx_assert(file("le.md5") == "former", "a former file is kept"); sx_reach("done"); }
// whatever cannot be opened or written, a file reported as converted is complete
SX_HARNESS(e03_faults) {
  std::string s, e; for (size_t i = 0; i < 2; ++i) { std::string r = sx_string("record", 20); s += r; for (int h = 0; h < 16; h += 8) for (int k = 7; k >= 0; --k) e += r[h + k]; e += r.substr(16); } sx_fs_put("be.md5", s.data(), s.size());
  const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 1, 19, 20, 21, 39, 40}; if (what == 1) sx_fault(sx_pick("open", 1, 3), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 6)]);
  const int rc = run(sx_main_be2le, {"be2le", "be.md5", "le.md5"}); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1); sx_assert(same(file("be.md5"), s), "the input is kept"); if (rc) { sx_assert(hit, "converting succeeds"); sx_reach("failed"); } else sx_assert(same(file("le.md5"), e), "each record is converted once, and nothing else is written"); sx_obs(rc != 0, "status"); sx_reach("done");
}
SX_HARNESS(e03_read) {   // an input that cannot be read from some position on
  std::string s, e; for (size_t i = 0; i < 2; ++i) { std::string r = sx_string("record", 20); s += r; for (int h = 0; h < 16; h += 8) for (int k = 7; k >= 0; --k) e += r[h + k]; e += r.substr(16); } sx_fs_put("be.md5", s.data(), s.size()); sx_fault_read("be.md5", (long)sx_pick("position", 0, 40));
  const int rc = run(sx_main_be2le, {"be2le", "be.md5", "le.md5"}); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); if (rc) { sx_assert(hit, "converting succeeds"); sx_reach("failed"); } else sx_assert(same(file("le.md5"), e), "each record is converted once, and nothing else is written"); sx_obs(rc != 0, "status"); sx_reach("done");
}
SX_HARNESS(e03_own) { std::string s = sx_string("record", 20); sx_fs_put("be.md5", s.data(), s.size()); sx_assert(run(sx_main_be2le, {"be2le", "be.md5", sx_pick("name", 0, 1) ? "./be.md5" : "be.md5"}) != 0, "the input cannot be the output"); sx_assert(same(file("be.md5"), s), "the input is kept"); sx_reach("done"); }
#endif
