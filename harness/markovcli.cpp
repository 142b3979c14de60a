// C06 the Markov tools: generating a chain from a list of passwords and looking passwords up in it
#include <sx.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
int sx_main_generator(int argc, char *argv[]); int sx_main_markov(int argc, char *argv[]);
struct Ref {
  std::map<char, unsigned> first; std::map<char, std::map<char, unsigned>> next;
  void train(const std::string &w) { if (w.empty()) return; ++first[w[0]]; for (size_t i = 0; i + 1 < w.size(); ++i) ++next[w[i]][w[i + 1]]; }
  static double part(const std::map<char, unsigned> &m, char c) { double n = 0, s = 0; for (auto &e : m) { s += e.second; if (e.first == c) n = e.second; } return s ? n / s : 0; }
  double p(const std::string &w) { double r = part(first, w[0]); for (size_t i = 0; i + 1 < w.size(); ++i) r *= part(next[w[i]], w[i + 1]); return r; }
};
static std::string pick(const char *name, size_t lo, size_t hi) { const size_t n = sx_pick(name, lo, hi); std::string w; for (size_t i = 0; i < n; ++i) w += (char)('a' + sx_pick("letter", 0, 1)); return w; }
static std::string out() { static char t[1 << 15]; size_t n = sx_stdout_get(t, sizeof t); if (n > sizeof t) sx_unsupported("more output than expected"); return std::string(t, n); }
static int run(int (*f)(int, char **), std::vector<std::string> a) { static char b[9][64]; char *v[10]; int n = 0; for (auto &s : a) { strcpy(b[n], s.c_str()); v[n] = b[n]; ++n; } v[n] = nullptr; return f(n, v); }
static bool near(double a, double b) { return (a - b < 1e-5) & (b - a < 1e-5); }
static double field(const std::string &t, size_t at) { size_t e = t.find_first_not_of("0123456789.e+-", at); return atof(t.substr(at, e - at).c_str()); }
SX_HARNESS(c06_tools) {
  std::string t; Ref r; const unsigned n = sx_pick("lines", 0, sx_bound("lines", 2)), user = sx_pick("user", 0, 1);
  for (unsigned i = 0; i < n; ++i) { std::string w = pick("len", 0, sx_bound("len", 2)); r.train(w); t += (user ? "u:" : "") + w + "\n"; }
  sx_fs_put("in.txt", t.data(), t.size());
  sx_assert(run(sx_main_generator, {"gen", "-I", "in.txt", "-O", "out.mrkv"}) == 0, "a list of passwords is accepted");
  std::string j = out(); size_t a = j.find("\"first\""), b = j.find("\"successor\""); sx_assert(a != std::string::npos && b != std::string::npos && a < b, "the chain is shown");
  for (char c : {'a', 'b'}) { const std::string key = "\"" + std::to_string((int)c) + "\": \""; size_t k = j.find(key, a); const bool there = k != std::string::npos && k < b; sx_assert(there == (r.first.count(c) > 0), "the first symbols are shown"); if (there) sx_assert(near(field(j, k + key.size()), Ref::part(r.first, c)), "the probabilities are shown"); }
  std::string q = pick("qlen", 1, 2), in = q + "\nb\n"; sx_stdin(in.data(), in.size());
  sx_assert(run(sx_main_markov, {"lookup", "out.mrkv"}) == 0, "the session ends successfully");
  std::string s = out().substr(j.size()); std::vector<double> p; for (size_t k = 0; (k = s.find("p = ", k)) != std::string::npos; k += 4) p.push_back(field(s, k + 4));
  sx_assert(p.size() == 2, "each password is answered once"); sx_assert(near(p[0], r.p(q)) && near(p[1], r.p("b")), "the answer is the probability of the password");
  if (r.p(q) > 0) sx_reach("known"); sx_reach("done");
}
SX_HARNESS(c06_unusable) {
  const unsigned what = sx_pick("what", 0, 5); const std::string keep = "keep me"; sx_fs_put("in.txt", "ab\n", 3); sx_fs_put("out.mrkv", keep.data(), keep.size()); int rc = 1;
  if (what == 0) rc = run(sx_main_generator, {"gen", "-I", "none.txt", "-O", "out.mrkv"});
  if (what == 1) rc = run(sx_main_generator, {"gen", "-I", "in.txt"});
  if (what == 2) rc = run(sx_main_generator, {"gen", "-O", "out.mrkv"});
  if (what == 3) rc = run(sx_main_generator, {"gen", "-I", "in.txt", "-O", "no-such-dir/out.mrkv"});
  if (what == 4) rc = run(sx_main_generator, {"gen", "--no-such-option"});
  if (what == 5) { const std::string in = "ab\n"; sx_stdin(in.data(), in.size()); const bool none = sx_pick("none", 0, 1); std::string f = sx_string("file", 4); if (!none) sx_fs_put("out.mrkv", f.data(), 4); rc = run(sx_main_markov, {"lookup", none ? "none.mrkv" : "out.mrkv"}); sx_assert(out().find("p = ") == std::string::npos, "no answers from an unusable file"); sx_reach("lookup"); }
  sx_assert(rc != 0, "what cannot be done is reported");
  if (what < 5) { char b[16]; long m = sx_fs_get("out.mrkv", b, sizeof b); sx_assert(m == (long)keep.size() && memcmp(b, keep.data(), keep.size()) == 0, "an existing file is not lost"); }
  sx_reach("done");
}
// whatever cannot be opened or written, a chain reported as generated is complete
SX_HARNESS(c06_faults) {
  const std::string t = "u:ab\nu:aa\nu:ba\n"; Ref r; for (auto w : {"ab", "aa", "ba"}) r.train(w); sx_fs_put("in.txt", t.data(), t.size()); const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 1, 7, 8, 12, 20, 40, 60, 80, 100, 1000}; if (what == 1) sx_fault(sx_pick("open", 1, 3), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 10)]);
  const int rc = run(sx_main_generator, {"gen", "-I", "in.txt", "-O", "out.mrkv"}); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1); const size_t shown = out().size();
  if (rc) { sx_assert(hit, "a list of passwords is accepted"); sx_reach("failed"); } else {
    const std::string q = pick("qlen", 1, 2), in = q + "\n"; sx_stdin(in.data(), in.size()); sx_assert(run(sx_main_markov, {"lookup", "out.mrkv"}) == 0, "the session ends successfully");
    std::string s = out().substr(shown); const size_t k = s.find("p = "); sx_assert(k != std::string::npos && near(field(s, k + 4), r.p(q)), "the answer is the probability of the password"); }
  char b[32]; sx_assert(sx_fs_get("in.txt", b, sizeof b) == (long)t.size() && memcmp(b, t.data(), t.size()) == 0, "the list is kept"); sx_obs(rc != 0, "status"); sx_reach("done");
}
// a list or a chain that cannot be read from some position on
SX_HARNESS(c06_read) {
  const std::string t = "u:ab\nu:aa\n"; Ref r; for (auto w : {"ab", "aa"}) r.train(w); sx_fs_put("in.txt", t.data(), t.size()); const bool chain = sx_pick("chain", 0, 1); if (!chain) sx_fault_read("in.txt", (long)sx_pick("position", 0, t.size()));
  int rc = run(sx_main_generator, {"gen", "-I", "in.txt", "-O", "out.mrkv"}); bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); const size_t shown = out().size(); if (rc) { sx_assert(hit, "a list of passwords is accepted"); sx_reach("failed"); sx_reach("done"); return; }
  sx_assert(!hit || chain, "a list that cannot be read is reported");
  if (chain) sx_fault_read("out.mrkv", (long)sx_pick("position", 0, sx_fs_get("out.mrkv", nullptr, 0))); const std::string q = pick("qlen", 1, 2), in = q + "\n"; sx_stdin(in.data(), in.size()); rc = run(sx_main_markov, {"lookup", "out.mrkv"}); hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0);
  std::string s = out().substr(shown); const size_t k = s.find("p = "); if (rc) { sx_assert(hit & chain, "the session ends successfully"); sx_assert(k == std::string::npos, "no answers from an unusable file"); sx_reach("unusable"); } else sx_assert(k != std::string::npos && near(field(s, k + 4), r.p(q)), "the answer is the probability of the password"); sx_obs(rc != 0, "status"); sx_reach("done");
}
SX_HARNESS(c06_many) {   // longer lists, also longer than what is looked at ahead
  static const unsigned N[] = {3, 6, 33, 530}; std::string t; Ref r; const unsigned n = N[sx_pick("lines", 0, 3)], at = sx_pick("at", 0, 1) ? n - 1 : 2; for (unsigned i = 0; i < n; ++i) { std::string w = i == at ? pick("len", 1, 2) : i % 3 == 0 ? "ab" : i % 3 == 1 ? "aa" : "b"; r.train(w); t += w + "\n"; } sx_fs_put("in.txt", t.data(), t.size());
  sx_assert(run(sx_main_generator, {"gen", "-I", "in.txt", "-O", "out.mrkv"}) == 0, "a list of passwords is accepted"); const size_t shown = out().size(); std::string in; static const char *const Q[] = {"ab", "b", "ba", "aab"}; for (auto q : Q) in += std::string(q) + "\n"; sx_stdin(in.data(), in.size()); sx_assert(run(sx_main_markov, {"lookup", "out.mrkv"}) == 0, "the session ends successfully");
  std::string s = out().substr(shown); size_t k = 0; for (auto q : Q) { k = s.find("p = ", k); sx_assert(k != std::string::npos && near(field(s, k + 4), r.p(q)), "the answer is the probability of the password"); if (k == std::string::npos) break; k += 4; } sx_reach("done");
}
SX_HARNESS(c06_own) {
  const std::string t = "ab\n"; sx_fs_put("in.txt", t.data(), t.size()); sx_assert(run(sx_main_generator, {"gen", "-I", "in.txt", "-O", sx_pick("name", 0, 1) ? "./in.txt" : "in.txt"}) != 0, "the list cannot be the chain"); char b[8]; sx_assert(sx_fs_get("in.txt", b, sizeof b) == 3 && memcmp(b, "ab\n", 3) == 0, "the list is kept"); sx_reach("done");
}
