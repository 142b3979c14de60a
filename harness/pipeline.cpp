// X01 from leaked text to the answer of a lookup: convert, merge, index, look up
#include <sx.h>
#include <algorithm>
#include <vector>
#include <boost/filesystem.hpp>
#include <pwned-lib/hash.hpp>
#include <pwned-lib/passwordinspector.hpp>
#include <pwned-lib/userpasswordreader.hpp>
#include "pwned-converter-cli/convertoperation.hpp"
#include "pwned-merger-cli/mergeoperation.hpp"
namespace fs = boost::filesystem; using pwned::PasswordInspector;
int sx_main_index(int, const char *[]);
static std::string anyText(const char *nm, size_t hi) { std::string t = sx_string(nm, sx_pick("len", 0, hi)); for (char &c : t) { sx_assume((c == 'a') | (c == 'b') | (c == '\n')); c = (char)sx_choose((unsigned char)c); } return t; }
static void lines(const std::string &t, std::vector<std::string> &pw) { std::string l; for (char c : t) { if (c == '\n') { if (!l.empty()) pw.push_back(l); l.clear(); } else l.push_back(c); } if (!l.empty()) pw.push_back(l); }
SX_HARNESS(x01_pipeline)
{
  const unsigned how = sx_pick("lookup", 0, 2); std::vector<std::string> pw; fs::create_directory("out"); uint16_t mem = sx_any<uint16_t>("mem"); sx_assume(mem < 250);
  for (int k = 0; k < 2; ++k) { std::string t = anyText("text", k ? sx_bound("second", 1) : sx_bound("first", 3)); const char *n = k ? "b.txt" : "a.txt"; sx_fs_put(n, t.data(), t.size()); lines(t, pw); ConvertOperation op(n, "out", ".md5", mem, {}); op.start(); }
  std::vector<std::string> fn; for (fs::directory_iterator i{fs::path("out")}, e; i != e; ++i) fn.push_back(i->path().string()); std::sort(fn.begin(), fn.end());
  if (fn.empty()) { sx_assert(pw.empty(), "no password is lost"); return; }
  { std::vector<merger::InputFile> in; for (auto &f : fn) in.push_back(merger::InputFile(f)); merger::MergeOperation op(in, "db.md5", true); op.execute(); }
  if (how == 2) { const char *a[] = {"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", "2", nullptr}; sx_assert(sx_main_index(7, a) == 0, "the index is built"); }
  PasswordInspector db("db.md5", how == 2 ? "db.idx" : ""); sx_assert(db.isOpen(), "the result can be opened");
  std::vector<std::string> q = {"a", "ab"}; uint64_t sum = 0;
  for (auto &p : q) { pwned::Hash h(p); uint64_t want = 0; for (auto &x : pw) { pwned::Hash g(x); if ((g.quad.upper == h.quad.upper) & (g.quad.lower == h.quad.lower)) ++want; } auto r = how == 1 ? db.smart_binsearch(h) : db.binsearch(h); uint64_t c = r.count; sx_obs(c, "count"); sx_assert(c == want, "a password is found as often as it occurs in the texts"); if (c) sx_reach("hit"); }
  sx_reach("done");
}
// more passwords: the digests are the real ones, how often they occur, the memory limit and the number of prefix bits vary
SX_HARNESS(x01_many)
{
  sx_md5_real(1); const unsigned how = sx_pick("lookup", 0, 2), bits = how == 2 ? sx_pick("bits", 1, 5) : 0, first = sx_pick("first", 0, 2), last = sx_pick("last", 0, 2), n[2] = {23, 11}; std::vector<std::string> pw; fs::create_directory("out"); uint16_t mem = sx_any<uint16_t>("mem"); sx_assume((mem > 250) & (mem < 1000));
  for (int k = 0; k < 2; ++k) { std::string t; for (unsigned i = 0; i < n[k]; ++i) { const unsigned w = i == 0 ? first : i == n[k] - 1 ? last : (i * i + 3 * i) % (k ? 7 : 23); const std::string p = "pw" + std::to_string(w); pw.push_back(p); t += "u" + std::to_string(i) + ";" + p + "\r\n"; } const char *f = k ? "b.txt" : "a.txt"; sx_fs_put(f, t.data(), t.size()); ConvertOperation op(f, "out", ".md5", mem, {}); op.start(); }
  std::vector<std::string> fn; for (fs::directory_iterator i{fs::path("out")}, e; i != e; ++i) fn.push_back(i->path().string()); std::sort(fn.begin(), fn.end()); sx_assert(!fn.empty(), "no password is lost"); if (fn.size() > 2) sx_reach("split");
  { std::vector<merger::InputFile> in; for (auto &f : fn) in.push_back(merger::InputFile(f)); merger::MergeOperation op(in, "db.md5", true); op.execute(); } sx_assert(fs::directory_iterator(fs::path("out")) == fs::directory_iterator(), "the inputs are removed if that is asked for");
  if (how == 2) { const std::string b = std::to_string(bits); const char *a[] = {"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", b.c_str(), nullptr}; sx_assert(sx_main_index(7, a) == 0, "the index is built"); }
  PasswordInspector db("db.md5", how == 2 ? "db.idx" : ""); sx_assert(db.isOpen(), "the result can be opened");
  for (unsigned w = 0; w < 26; ++w) { const std::string p = "pw" + std::to_string(w); uint64_t want = std::count(pw.begin(), pw.end(), p), c = how == 1 ? db.smart_binsearch(pwned::Hash(p)).count : db.lookup(p).count; sx_assert(c == want, "a password is found as often as it occurs in the texts"); } sx_reach("done");
}
