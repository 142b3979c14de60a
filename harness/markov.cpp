// C01 probability of a word, C02 saving and loading, C03 unusable files, C04 random symbols
#include <sx.h>
#include <cmath>
#include <sstream>
#include <fstream>
#include <cstring>
#include <map>
#include <set>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/locale/encoding_utf.hpp>
#include <pwned-lib/util.hpp>
static double sx_p;
namespace pwned { static double sx_random() { return sx_p; } }
#define random sx_random
#include <pwned-lib/markovnode.hpp>
#include <pwned-lib/markovchain.hpp>
#undef random
typedef pwned::markov::Chain<wchar_t, double> Chain;
typedef std::wstring W;
static const wchar_t ALPHA[] = {L'a', L'b', 0xE9, 0x20AC, 0x1F511};   // 1, 2, 3 and 4 bytes in UTF-8
static std::string utf8(const W &w) {
  std::string s;
  for (wchar_t c : w) { const uint32_t u = (uint32_t)c;
    if (u < 0x80) s += (char)u; else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); } }
  return s;
}
static W pick(const char *name, size_t lo, size_t hi, unsigned letters, unsigned from = 0) { const size_t n = sx_pick(name, lo, hi); W w; for (size_t i = 0; i < n; ++i) w += ALPHA[from + sx_pick("letter", 0, letters - 1)]; return w; }
// The reference
struct Ref {
  std::map<wchar_t, uint64_t> first; std::map<wchar_t, std::map<wchar_t, uint64_t>> next;
  void train(const W &w) { if (w.empty()) return; ++first[w[0]]; for (size_t i = 0; i + 1 < w.size(); ++i) ++next[w[i]][w[i + 1]]; }
  // counts and sums as fractions; 0/1 for what never occurred
  static double part(const std::map<wchar_t, uint64_t> &m, wchar_t c) { uint64_t n = 0, s = 0; for (auto &e : m) { s += e.second; n = e.first == c ? e.second : n; } return s ? (double)n / (double)s : 0; }
  double p(const W &w) const {
    double r = part(first, w[0]);
    for (size_t i = 0; i + 1 < w.size(); ++i) { double q = 0; for (auto &e : next) if (e.first == w[i]) q = part(e.second, w[i + 1]); r *= q; }
    return r;
  }
};
static bool near(double a, double b) { double d = a - b; return (d < 1e-9) & (d > -1e-9); }
static W query(unsigned hi, unsigned letters, unsigned from) {   // at most one symbol is something else
  const size_t n = sx_pick("qlen", 1, hi), odd = sx_pick("odd", 0, n); W q;
  for (size_t i = 0; i < n; ++i) if (i == odd) { uint16_t c = sx_any<uint16_t>("other"); for (unsigned k = 0; k < letters; ++k) sx_assume(c != (uint32_t)ALPHA[from + k]); q += (wchar_t)c; } else q += ALPHA[from + sx_pick("qletter", 0, letters - 1)];
  return q;
}
static void agree(Chain &c, const Ref &r, unsigned hi, unsigned letters, unsigned from) { W q = query(hi, letters, from); double p = c.totalProbability(q), e = r.p(q); sx_assert(near(p, e), "the probability of a word is the product of the relative frequencies of its first symbol and its transitions"); sx_obs(p, "p"); if (e > 0) sx_reach("known"); }
SX_HARNESS(c01_words) {
  Chain c; Ref r; const unsigned n = sx_pick("words", 0, sx_bound("words", 2)), letters = sx_bound("letters", 2), from = sx_bound("from", 0);
  const bool twice = sx_bound("twice", 0);
  for (unsigned i = 0; i < n; ++i) { W w = pick("len", i ? 1 : 0, sx_bound("len", 2), letters, from); sx_assert(c.train(utf8(w)) == !w.empty(), "an empty password is not counted, any other is"); r.train(w); if (twice) c.update(); }
  c.update(); agree(c, r, sx_bound("qlen", 3), letters, from); sx_reach("done");
}
// long passwords, and many of them
SX_HARNESS(c01_long) {
  Chain c; Ref r; static const unsigned N[] = {31, 64, 65, 255, 256, 257, 600}; const unsigned n = N[sx_pick("size", 0, sx_bound("sizes", 6))], shape = sx_pick("shape", 0, 2);
  if (shape == 0) { W w; for (unsigned i = 0; i < n; ++i) w += ALPHA[i % 3 == 0]; w += ALPHA[4]; c.train(utf8(w)); r.train(w); }
  else if (shape == 1) { for (unsigned i = 0; i < n; ++i) { W w; w += ALPHA[i == 5]; w += ALPHA[i == 9]; c.train(utf8(w)); r.train(w); } }
  else { for (unsigned i = 0; i < n; ++i) { W w; w += (wchar_t)(0x100 + i); w += (wchar_t)(0x101 + i); w += ALPHA[0]; c.train(utf8(w)); r.train(w); } }
  c.update(); W q; const unsigned k = sx_pick("q", 0, 3); q += shape == 2 ? (wchar_t)(k == 0 ? 0x100 : k == 1 ? 0x100 + n / 2 : 0xff + n) : ALPHA[k & 1]; q += shape == 2 ? (wchar_t)(q[0] + 1) : ALPHA[k >> 1]; if (sx_pick("third", 0, 1)) { uint8_t x = sx_any<uint8_t>("third"); sx_assume((x < 'a') | (x > 'b')); q += (wchar_t)x; }
  double p = c.totalProbability(q), e = r.p(q), d = p - e; sx_assert((d <= e * 1e-9) & (d >= -e * 1e-9), "the probability of a word is the product of the relative frequencies of its first symbol and its transitions"); sx_obs(p, "p"); if (e > 0) sx_reach("known"); sx_reach("done");
}
// updated after every password, or asked in between
SX_HARNESS(c01_updates) {
  Chain c; Ref r; const unsigned n = sx_bound("words", 3); for (unsigned i = 0; i < n; ++i) { W w; w += ALPHA[sx_pick("first", 0, 1)]; w += ALPHA[sx_pick("next", 0, 1)]; c.train(utf8(w)); r.train(w); if (sx_pick("update", 0, 1) | (i + 1 == n)) c.update(); }
  W q; q += ALPHA[sx_pick("q", 0, 1)]; q += ALPHA[sx_pick("q", 0, 1)]; double p = c.totalProbability(q), e = r.p(q); sx_assert(near(p, e), "the probability of a word is the product of the relative frequencies of its first symbol and its transitions"); sx_obs(p, "p"); if (e > 0) sx_reach("known"); sx_reach("done");
}
// words of very small probability
SX_HARNESS(c01_rare) {
  Chain c; Ref r; const unsigned n = sx_pick("symbols", 1, 4) * 8, len = sx_pick("len", 2, 6); for (unsigned i = 0; i < n; ++i) { W w; for (unsigned k = 0; k < len; ++k) w += (wchar_t)(0x3b1 + (i * (k + 1) + k) % n); c.train(utf8(w)); r.train(w); }
  c.update(); W q; const unsigned word = sx_pick("q", 0, 3) * 5 % n, other = sx_pick("other", 0, len); for (unsigned k = 0; k < len; ++k) q += (wchar_t)(0x3b1 + (word * (k + 1) + k) % n); if (other < len) { q[other] = (wchar_t)(0x3b1 + sx_any<uint8_t>("x") % 4); } else if (sx_pick("unseen", 0, 1)) q += (wchar_t)sx_any<uint8_t>("x");
  double p = c.totalProbability(q), e = r.p(q), d = p - e; sx_assert((d <= e * 1e-9) & (d >= -e * 1e-9), "the probability of a word is the product of the relative frequencies of its first symbol and its transitions"); sx_obs(p, "p"); if (e > 0) sx_reach("known"); sx_reach("done");
}
// symbols nobody thought of: any two bytes
SX_HARNESS(c01_bytes) {
  Chain c; std::string s = sx_string("text", sx_bound("bytes", 2)); const bool ok = c.train(s); c.update();
  double sum = 0; for (const auto &e : c.firstSymbolProbs()) { sx_assert((e.second > 0) & (e.second <= 1), "relative frequencies lie between 0 and 1"); sum += e.second; }
  sx_assert(ok ? near(sum, 1) : c.firstSymbolProbs().empty(), "relative frequencies add up to 1");
  for (const auto &e : c.nodes()) { sum = 0; for (const auto &x : e.second.sortedSuccessors()) sum += x.second; sx_assert(near(sum, 1), "the relative frequencies of successors add up to 1"); }
  if (ok) sx_reach("known"); sx_reach("done");
}

// C02
static void train(Chain &c, Ref &r, unsigned n, unsigned len, unsigned letters, unsigned from) { for (unsigned i = 0; i < n; ++i) { W w = pick("len", 1, len, letters, from); c.train(utf8(w)); r.train(w); } c.update(); }
static bool exact(double a, double b) { return a == b; }
SX_HARNESS(c02_roundtrip) {
  const unsigned letters = sx_bound("letters", 2), from = sx_pick("from", 0, 1) * 3; Chain c, d; Ref r;
  train(c, r, sx_pick("words", 0, sx_bound("words", 2)), sx_bound("len", 2), letters, from);
  if (sx_pick("used", 0, 1)) { d.train("xyz"); d.train("ab"); d.update(); }
  std::stringstream f; c.saveBinary(f);
  sx_assert(d.loadBinary(f) == Chain::OK, "what was saved can be loaded");
  sx_assert(c.firstSymbolProbs() == d.firstSymbolProbs(), "first symbols and their probabilities are kept");
  sx_assert(c.nodes().size() == d.nodes().size(), "symbols with successors are kept");
  for (const auto &e : c.nodes()) { const auto o = d.nodes().find(e.first); sx_assert(o != d.nodes().end(), "symbols with successors are kept"); sx_assert(e.second.successors() == o->second.successors(), "successors and their probabilities are kept"); }
  W q = query(sx_bound("qlen", 2), letters, from); double a = c.totalProbability(q), b = d.totalProbability(q); sx_assert(exact(a, b), "a loaded chain gives the same probabilities"); sx_assert(near(b, r.p(q)), "a loaded chain gives the trained probabilities");
  std::stringstream g; d.saveBinary(g); sx_obs(b, "p"); sx_assert(g.str().size() == f.str().size(), "saving a loaded chain loses nothing"); if (b > 0) sx_reach("known"); sx_reach("done");
}
// symbols and probabilities of a file, all bits of them
template <class T> static void put(std::string &s, T v) { s.append(reinterpret_cast<const char *>(&v), sizeof v); }
SX_HARNESS(c02_format) {
  const uint32_t a = sx_any<uint32_t>("a"), b = sx_any<uint32_t>("b"); sx_assume(a != b); const uint64_t p = sx_any<uint64_t>("p"), q = sx_any<uint64_t>("q"); double dp, dq; memcpy(&dp, &p, 8); memcpy(&dq, &q, 8);
  std::string f = "MRKV\x02"; put<uint32_t>(f, 1); put<uint32_t>(f, a); put(f, dp); put<uint32_t>(f, 1); put<uint32_t>(f, a); put<uint32_t>(f, 1); put<uint32_t>(f, b); put(f, dq);
  std::stringstream in(f), out; Chain c; sx_assert(c.loadBinary(in) == Chain::OK, "a file in the format is accepted"); c.saveBinary(out); std::string g = out.str();
  sx_assert(f.size() == g.size(), "saved as loaded"); bool same = true; for (size_t i = 0; i < f.size(); ++i) same = same & (f[i] == g[i]); sx_assert(same, "saved as loaded"); sx_reach("done");
}

// many symbols
SX_HARNESS(c02_large) {
  Chain c, d; static const unsigned N[] = {127, 128, 255, 256, 257, 300, 33000}; const unsigned n = N[sx_pick("size", 0, sx_bound("sizes", 5))], shape = sx_pick("shape", 0, 1); const wchar_t base = sx_pick("base", 0, 1) ? 0x1f300 : 0x4e00;
  for (unsigned i = 0; i < n; ++i) { W w; if (shape == 0) { w += base; w += (wchar_t)(base + i); } else { w += (wchar_t)(base + i); w += (wchar_t)(base + i + 1); } c.train(utf8(w)); } c.update();
  std::stringstream f; c.saveBinary(f); sx_assert(d.loadBinary(f) == Chain::OK, "what was saved can be loaded"); sx_assert(d.nodes().size() == c.nodes().size() && d.firstSymbolProbs().size() == c.firstSymbolProbs().size(), "symbols are kept");
  W q; const unsigned k = sx_pick("q", 0, 3), i = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; if (shape == 0) { q += base; q += (wchar_t)(base + i); } else { q += (wchar_t)(base + i); q += (wchar_t)(base + i + 1); } if (k == 3) q[1] = (wchar_t)sx_any<uint8_t>("x");
  double a = d.totalProbability(q), b = k == 3 ? 0 : 1. / n; sx_assert((a - b <= b * 1e-9) & (a - b >= -b * 1e-9), "a loaded chain gives the trained probabilities"); sx_obs(a, "p"); sx_reach("done");
}

// C03
static std::string good() { std::string f = "MRKV\x02"; put<uint32_t>(f, 2); put<uint32_t>(f, 'a'); put(f, .25); put<uint32_t>(f, 'b'); put(f, .75); put<uint32_t>(f, 2); put<uint32_t>(f, 'a'); put<uint32_t>(f, 1); put<uint32_t>(f, 'b'); put(f, 1.); put<uint32_t>(f, 'b'); put<uint32_t>(f, 1); put<uint32_t>(f, 'a'); put(f, 1.); return f; }
static void named(const Chain &c, Chain::ErrCode e) {
  static const char *const N[] = {"OK", "BAD_HEADER", "BAD_HEADER_PREMATURE_EOF", "BAD_VERSION", "BAD_VERSION_PREMATURE_EOF", "BAD_SYMBOL_COUNT", "BAD_SYMBOL_COUNT_PREMATURE_EOF", "BAD_SYMBOL", "BAD_SYMBOL_PREMATURE_EOF", "BAD_PROBABILITY", "BAD_PROBABILITY_PREMATURE_EOF", "BAD_NODE_COUNT", "BAD_NODE_COUNT_PREMATURE_EOF"};
  sx_assert(c.errString(e) == N[e], "every error has its name");
}
SX_HARNESS(c03_cut) {
  const std::string f = good(); const size_t n = sx_pick("size", 0, f.size()); std::istringstream in(f.substr(0, n)); Chain c; c.train("uv"); c.update();
  const Chain::ErrCode e = c.loadBinary(in); sx_assert((e == Chain::OK) == (n == f.size()), "an incomplete file is reported, a complete one is not"); named(c, e);
  static const size_t end[] = {4, 5, 9}; if (n < 4) sx_assert(e == Chain::BAD_HEADER_PREMATURE_EOF, "the report tells the place"); else if (n < 5) sx_assert(e == Chain::BAD_VERSION_PREMATURE_EOF, "the report tells the place"); else if (n < 9) sx_assert(e == Chain::BAD_SYMBOL_COUNT_PREMATURE_EOF, "the report tells the place"); (void)end;
  W q = L"uv"; sx_assert(c.totalProbability(q) == 0, "the former contents are gone"); sx_obs(e, "code"); if (n == f.size()) sx_reach("whole"); sx_reach("done");
}
SX_HARNESS(c03_changed) {   // one field with any other value
  const std::string f = good(); std::string g = f; static const size_t at[] = {0, 1, 2, 3, 4, 5, 33, 37, 41, 57, 61, 9, 21}; const unsigned k = sx_pick("field", 0, 12), n = k < 5 ? 1 : 4; std::string v = sx_string("v", n);
  for (unsigned i = 0; i < n; ++i) g[at[k] + i] = v[i];
  bool same = true; for (unsigned i = 0; i < n; ++i) same = same & (v[i] == f[at[k] + i]);
  std::istringstream in(g); Chain c; const Chain::ErrCode e = c.loadBinary(in); named(c, e);
  if (k < 4) sx_assert(e == (same ? Chain::OK : Chain::BAD_HEADER), "another header is refused"); else if (k == 4) sx_assert(e == (same ? Chain::OK : Chain::BAD_VERSION), "another version is refused");
  if (same) { sx_assert(e == Chain::OK, "a good file is accepted"); sx_reach("whole"); } sx_obs(e, "code"); sx_reach("done");
}
SX_HARNESS(c03_read) {   // a file that cannot be read from some position on
  const std::string f = good(); const long at = (long)sx_pick("position", 0, f.size() - 1); sx_fs_put("c.mrkv", f.data(), f.size()); Chain c; std::ifstream is("c.mrkv", std::ios::binary); sx_fault_read("c.mrkv", at); const Chain::ErrCode e = c.loadBinary(is); sx_fault_read(nullptr, 0); named(c, e); sx_assert(e != Chain::OK, "a file that cannot be read is reported"); sx_obs((uint64_t)e, "code"); sx_reach("done");
}
SX_HARNESS(c03_missing) { Chain c; std::ifstream none("no-such-file", std::ios::binary); const Chain::ErrCode e = c.loadBinary(none); named(c, e); sx_assert(e != Chain::OK, "a file that cannot be opened is reported"); for (int k = Chain::OK; k <= Chain::BAD_NODE_COUNT_PREMATURE_EOF; ++k) named(c, (Chain::ErrCode)k); sx_reach("done"); }

// C04
static double part_of_four(unsigned k) { double p = sx_any<double>("p"); sx_assume((p >= k * .25) & (p < (k + 1) * .25)); return p; }
template <class F, class G> static void draw(F f, G prob) {   // probabilities are multiples of 1/4
  std::map<wchar_t, unsigned> n; wchar_t first = 0;
  for (unsigned k = 0; k < 4; ++k) { sx_p = k * .25; const wchar_t a = f(); sx_p = part_of_four(k); const wchar_t b = f(); sx_assert(a == b, "random symbols are drawn according to their probabilities"); ++n[a]; if (!k) first = a; }
  double sum = 0; for (auto &e : n) { sx_assert(prob(e.first) == e.second * .25, "random symbols are drawn according to their probabilities"); sum += prob(e.first); } sx_assert(sum == 1, "every symbol can be drawn"); uint64_t o = first; sx_obs(o, "first");
}
static double in(const std::vector<std::pair<wchar_t, double>> &v, wchar_t w) { for (const auto &e : v) if (e.first == w) return e.second; return -1; }
SX_HARNESS(c04_draw) {
  Chain c; std::string s; for (int i = 0; i < 4; ++i) s += (char)('a' + sx_pick("x", 0, 3)); for (char x : s) c.train(std::string(1, x) + x);
  for (char x : s) c.train(std::string("s") + x); c.update(); const auto &node = c.nodes().find(L's')->second;
  draw([&] { return node.randomSuccessor(); }, [&](wchar_t w) { return in(node.sortedSuccessors(), w); });
  Chain d; for (char x : s) d.train(std::string(1, x)); d.update();
  draw([&] { return d.randomFirstSymbol(); }, [&](wchar_t w) { return in(d.firstSymbolProbs(), w); });
  sx_reach("done");
}
SX_HARNESS(c04_thirds) {   // shares that are not multiples of a power of two
  Chain c; const unsigned n = sx_pick("symbols", 2, 11); std::string s; for (unsigned i = 0; i < n; ++i) { s = std::string("s") + (char)('a' + i); c.train(s); c.train(s.substr(1)); } for (unsigned i = 0; i < n; ++i) c.train("s"); c.update(); const auto &node = c.nodes().find(L's')->second;
  const unsigned k = sx_pick("k", 0, n - 1); std::vector<wchar_t> all; for (unsigned i = 0; i < n; ++i) { sx_p = (i + .5) / n; all.push_back(node.randomSuccessor()); for (unsigned j = 0; j < i; ++j) sx_assert(all[j] != all[i], "every symbol gets its share"); }
  sx_p = sx_any<double>("p"); sx_assume((sx_p >= (k + 1e-12) / n) & (sx_p < (k + 1 - 1e-12) / n)); sx_assert(node.randomSuccessor() == all[k], "symbols are drawn according to their probabilities"); sx_reach("done");
}
SX_HARNESS(c04_any) {   // sums of probabilities that are not exactly 1
  Chain c; const unsigned n = sx_pick("symbols", 1, sx_bound("symbols", 11)); std::string s; for (unsigned i = 0; i < n; ++i) { s = std::string("s") + (char)('a' + i); c.train(s); c.train(s.substr(1)); } c.update();
  sx_p = sx_any<double>("p"); sx_assume((sx_p >= 0) & (sx_p < 1)); const wchar_t a = c.nodes().find(L's')->second.randomSuccessor(), b = c.randomFirstSymbol();
  sx_assert(in(c.nodes().find(L's')->second.sortedSuccessors(), a) > 0, "a random successor is a successor"); sx_assert(in(c.firstSymbolProbs(), b) > 0, "a random first symbol is a first symbol"); sx_reach("done");
}
