// R01 separator and password of a line, R02 which lines count, R03 MD5 digests and hexadecimal passwords
#include <sx.h>
#include <sstream>
#include <vector>
#include <pwned-lib/userpasswordreader.hpp>
using pwned::Hash; using pwned::UserPasswordReader; using pwned::UserPasswordReaderOptions;
typedef std::vector<UserPasswordReaderOptions> Opt;
// The reference: lines of the text, without carriage returns
struct Line { std::string raw, text; };
static std::vector<Line> lines_of(const std::string &t) {
  std::vector<Line> r; Line l; bool open = false;
  for (char c : t) { if (c == '\n') { r.push_back(l); l = Line(); open = false; continue; } open = true; l.raw.push_back(c); if (c != '\r') l.text.push_back(c); }
  if (open) r.push_back(l); return r;
}
static const char SEPS[] = {':', ';', '\t', ' '};
static void count(const std::vector<Line> &ls, unsigned n[4]) { for (int k = 0; k < 4; ++k) { n[k] = 0; for (size_t i = 0; i < ls.size() && i < 500; ++i) n[k] += ls[i].text.find(SEPS[k]) != std::string::npos; } }
static std::string after(const std::string &l, char sep) { size_t p = sep ? l.find(sep) : std::string::npos; return p == std::string::npos ? l : l.substr(p + 1); }
static bool counts(const Line &l) { return !l.raw.empty() && l.raw.size() <= 200; }
static bool same(const std::string &a, const std::string &b) { bool s = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) s = s & (a[i] == b[i]); return s; }

// Reads everything the way the tools do it; every password must be the part behind one separator that no other separator beats.
static void read_all(const std::string &text, bool hashes) {
  std::istringstream in(text); UserPasswordReader rd(in, Opt());
  std::vector<std::string> got; std::vector<Hash> gh; unsigned steps = 0;
  while (!rd.eof() && steps++ < 1000) { if (hashes) { Hash h = rd.nextPasswordHash(); if (h.isValid) gh.push_back(h); } else { std::string p = rd.nextPassword(); if (!p.empty()) got.push_back(p); } }
  sx_assert(rd.eof() && !rd.bad(), "reading ends at the end of the input");
  std::vector<Line> ls = lines_of(text); unsigned n[4]; count(ls, n); unsigned best = 0; for (int k = 0; k < 4; ++k) if (n[k] > best) best = n[k];
  bool some = false; const size_t m = hashes ? gh.size() : got.size();
  for (int k = 0; k < 4 && !some; ++k) {
    if (best && n[k] != best) continue;
    const char sep = best ? SEPS[k] : 0; bool ok = true; size_t j = 0;
    for (const Line &l : ls) {
      if (!counts(l)) continue; std::string p = after(l.text, sep); if (p.empty()) continue;
      if (j >= m) { ok = false; break; }
      if (hashes) { Hash e(p); ok = ok & (gh[j].quad.upper == e.quad.upper) & (gh[j].quad.lower == e.quad.lower); } else ok = ok & same(got[j], p);
      ++j;
    }
    some = ok && j == m;
  }
  sx_assert(some, "each line gives exactly the password behind the most frequent separator");
  uint64_t v = m; sx_obs(v, "passwords"); if (!hashes) for (auto &s : got) sx_obs_str(s, "password");
  if (best) sx_reach("separated"); sx_reach("done");
}
SX_HARNESS(r01_text) { read_all(sx_string("text", sx_pick("len", 0, sx_bound("len", 4))), false); }
// more lines, fewer different characters
SX_HARNESS(r01_lines) {
  const size_t n = sx_pick("len", 1, sx_bound("len", 7)); std::string t = sx_string("text", n);
  for (char c : t) sx_assume((c == ':') | (c == ';') | (c == '\n') | (c == 'x'));
  read_all(t, false);
}
SX_HARNESS(r01_all) {   // the separators against each other
  const size_t n = sx_pick("lines", 1, sx_bound("lines", 3)); std::string t;
  for (size_t i = 0; i < n; ++i) { std::string a = sx_string("a", 1), b = sx_string("b", 1); for (char c : {a[0], b[0]}) sx_assume((c == ':') | (c == ';') | (c == '\t') | (c == ' ')); t += "u" + a + "v" + b + "w" + (i & 1 ? "\r\n" : "\n"); }
  read_all(t, false);
}
SX_HARNESS(r02_text) { read_all(sx_string("text", sx_pick("len", 0, sx_bound("len", 4))), true); }
// lines around the limit of 200 characters, the last one with or without a newline
SX_HARNESS(r02_long) {
  const size_t n = sx_pick("len", 198, 202), pos = sx_pick("sep", 0, 1); const bool nl = sx_pick("newline", 0, 1), second = sx_pick("order", 0, 1);
  std::string v = sx_string("v", 2); for (char c : v) sx_assume((c != '\n') & (c != ';') & (c != '\t') & (c != ' ') & (c != ':'));
  std::string l(n, 'y'); l[pos ? n - 20 : 3] = ':'; l[n - 1] = v[0]; l[10] = v[1];
  read_all((second ? l + "\nu:p" : "u:p\n" + l) + (nl ? "\n" : ""), true);
}
// more lines than are looked at for guessing
SX_HARNESS(r02_many) {
  const size_t n = sx_pick("lines", 0, 2); std::string v = sx_string("v", 2); for (char c : v) sx_assume((c != '\n') & (c != ';') & (c != '\t') & (c != ' ') & (c != ':'));
  std::string t; for (size_t i = 0; i < 499 + n; ++i) t += i % 50 == 7 ? "a;b:c\r\n" : "u:\n"; t += "k:" + v;
  read_all(t, true);
}

// R03
static bool eqh(const Hash &a, const Hash &b) { return (a.quad.upper == b.quad.upper) & (a.quad.lower == b.quad.lower); }
static Hash only(const std::string &text, const Opt &o) {
  std::istringstream in(text); UserPasswordReader rd(in, o); Hash r; unsigned n = 0;
  while (!rd.eof()) { Hash h = rd.nextPasswordHash(); if (h.isValid) { r = h; ++n; } }
  sx_assert(n == 1, "the password is hashed once"); return r;
}
static int nib(char c) { unsigned char u = (unsigned char)c; if ((u >= '0') & (u <= '9')) return u - '0'; if ((u >= 'a') & (u <= 'f')) return u - 'a' + 10; if ((u >= 'A') & (u <= 'F')) return u - 'A' + 10; return -1; }
static Opt modes(unsigned m5, unsigned hx) { Opt o; if (hx == 1) o.push_back(UserPasswordReaderOptions::forceEvaluateHexEncodedPasswords); if (m5 == 1) o.push_back(UserPasswordReaderOptions::forceEvaluateMD5Hashes); if (m5 == 2) o.push_back(UserPasswordReaderOptions::autoEvaluateMD5Hashes); if (hx == 2) o.push_back(UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords); return o; }
static bool plain(char c) { return (c != '\n') & (c != '\r') & (c != ':') & (c != ';') & (c != '\t') & (c != ' '); }
SX_HARNESS(r03_md5) {
  const unsigned m5 = sx_pick("md5", 0, 2), hx = sx_pick("hex", 0, 2), n = sx_pick("len", 31, 33), k = sx_bound("free", 2); const bool cr = sx_pick("cr", 0, 1);
  std::string p = "0123456789aBcDeF89ABCDEF0123456700", v = sx_string("v", k); p.resize(n); static const unsigned at[] = {0, 30, 15, 7};
  for (unsigned i = 0; i < k; ++i) { sx_assume(plain(v[i])); p[at[i]] = v[i]; }
  Hash h = only("u:" + p + (cr ? "\r\n" : "\n"), modes(m5, hx));
  bool digits = n == 32; for (char c : v) digits = digits & (nib(c) >= 0);
  if (m5 && digits) { Hash e = Hash::fromHex(p); sx_assert(eqh(h, e), "a password of 32 hexadecimal digits is taken as the digest it is"); sx_reach("digest"); }
  else sx_assert(eqh(h, Hash(p)), "any other password is hashed");
  sx_obs(h.quad, "hash"); sx_reach("done");
}
SX_HARNESS(r03_hex) {
  const unsigned m5 = sx_pick("md5", 0, 2), hx = sx_pick("hex", 0, 2), n = sx_pick("len", 0, sx_bound("len", 4));
  std::string v = sx_string("v", n); for (char c : v) sx_assume(plain(c));
  std::string p = "$HEX[" + v + "]"; Hash h = only("u:" + p + "\n", modes(m5, hx));
  bool digits = n % 2 == 0 && n > 0; std::string d; for (char c : v) digits = digits & (nib(c) >= 0);
  if (hx && digits) { for (size_t i = 0; i + 1 < n; i += 2) d.push_back((char)(nib(v[i]) << 4 | nib(v[i + 1]))); sx_assert(eqh(h, Hash(d)), "a password given in hexadecimal is decoded before it is hashed"); sx_reach("decoded"); }
  else sx_assert(eqh(h, Hash(p)), "any other password is hashed as it is written");
  sx_obs(h.quad, "hash"); sx_reach("done");
}
// the frame of the notation
SX_HARNESS(r03_frame) {
  const unsigned hx = sx_pick("hex", 1, 2), at = sx_pick("at", 0, 7); const bool del = sx_pick("cut", 0, 1); char c = sx_any<char>("c"); sx_assume(plain(c));
  std::string p = "$HEX[4a4B]"; const unsigned pos = at < 6 ? at : at == 6 ? 9 : 10; bool asis;
  if (pos == 10) { p.push_back(c); asis = true; } else if (del) { p.erase(pos, 1); asis = true; } else { asis = p[pos] != c; if (pos == 5) asis = nib(c) < 0; p[pos] = c; }
  Hash h = only("u:" + p + "\n", modes(0, hx));
  if (asis) { sx_assert(eqh(h, Hash(p)), "a password that is not completely in the notation is hashed as it is written"); sx_reach("asis"); }
  else { std::string d = "JK"; if (pos == 5) d[0] = (char)(nib(c) << 4 | 10); sx_assert(eqh(h, Hash(d)), "a password in the notation is decoded"); }
  sx_reach("done");
}
// automatic detection: one line is enough to switch it on for the others, and nothing switches it on without one
SX_HARNESS(r03_auto) {
  const unsigned what = sx_pick("what", 0, 1), pos = sx_pick("where", 0, 1), fill = sx_pick("fill", 0, 1) ? 300 : 1;
  std::string v = sx_string("v", 2); for (char c : v) sx_assume(plain(c)); const bool digits = (nib(v[0]) >= 0) & (nib(v[1]) >= 0);
  const std::string s = what ? "$HEX[" + v + "]" : v + "000102030405060708090a0b0c0d0e", d = what ? "$HEX[414243]" : "ffeeddccbbaa99887766554433221100";
  std::string t; std::vector<std::string> pw; auto put = [&](const std::string &p) { t += "u;" + p + "\n"; pw.push_back(p); };
  if (pos) put(d); for (unsigned i = 0; i < fill; ++i) put(i ? "p" : "qw"); put(s); if (!pos) put(d);
  std::istringstream in(t); UserPasswordReader rd(in, what ? modes(0, 2) : modes(2, 0));
  for (const std::string &p : pw) {
    Hash h = rd.nextPasswordHash(), e(p);
    if (p.size() == 32 && (&p == &pw[pw.size() - 1 - !pos] ? digits : true)) e = Hash::fromHex(p);
    if (p[0] == '$' && p.size() == d.size() && what) { e = Hash("ABC"); } else if (p.size() == 8 && digits) { std::string b(1, (char)(nib(v[0]) << 4 | nib(v[1]))); e = Hash(b); }
    sx_assert(h.isValid && eqh(h, e), "with automatic detection every line is evaluated alike");
  }
  sx_assert(!rd.eof() ? !rd.nextPasswordHash().isValid : true, "nothing follows"); sx_reach("done");
}
// lines far beyond the limit: they are skipped as a whole, and what follows them is read
SX_HARNESS(r02_longer) {
  static const unsigned L[] = {203, 254, 255, 256, 257, 400, 401, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097}; const unsigned n = L[sx_pick("size", 0, sizeof L / sizeof *L - 1)], kind = sx_pick("kind", 0, 2); const bool nl = sx_pick("newline", 0, 1);
  std::string v = sx_string("v", 2); for (char c : v) sx_assume((c != '\n') & (c != ';') & (c != '\t') & (c != ' ') & (c != ':'));
  std::string l(n, 'y'); l[kind ? 3 : n - 3] = ':'; if (kind == 2) for (unsigned i = 50; i < n; i += 50) l[i] = ':'; l[n - 1] = v[0];
  read_all("u:p\n" + l + "\n" + (nl ? "k:" + v.substr(1) + "\n" : "") + l, true);
}
