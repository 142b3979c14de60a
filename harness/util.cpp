// U01 hex decoding, U02 population count, U04 string_format, U05 terminal echo, U06 UUID text
#include <sx.h>
#include <cstring>
#include <sstream>
#include <pwned-lib/util.hpp>
#include <pwned-lib/uuid.hpp>
#include <termios.h>

static int nib(char c) { unsigned char u = (unsigned char)c; if ((u >= '0') & (u <= '9')) return u - '0'; if ((u >= 'a') & (u <= 'f')) return u - 'a' + 10; if ((u >= 'A') & (u <= 'F')) return u - 'A' + 10; return -1; }
SX_HARNESS(u01_digit)
{
  char c; sx_make(&c, 1, "c");
  int r = pwned::decodeHex(c), e = nib(c);
  sx_assert((e < 0) == (r < 0), "a negative result exactly for characters that are no hexadecimal digits");
  if (e >= 0) { sx_assert(r == e, "the value of the digit"); sx_reach("digit"); }
  sx_obs(r, "value"); sx_reach("done");
}
SX_HARNESS(u01_text)
{
  const size_t n = sx_pick("len", 0, sx_bound("len", 9));
  std::string s = sx_string("text", n), out = "previous";
  const bool r = pwned::hexToCharSeq(s, out);
  bool good = n % 2 == 0; std::string exp(n / 2, '\0');
  for (size_t i = 0; i + 1 < n; i += 2) { int h = nib(s[i]), l = nib(s[i + 1]); good = good & (h >= 0) & (l >= 0); exp[i / 2] = (char)(h << 4 | (l & 15)); }
  sx_assert(r == good, "decoding succeeds exactly for an even number of hexadecimal digits");
  if (good) { bool same = out.size() == n / 2; for (size_t i = 0; i < out.size() && i < n / 2; ++i) same = same & (out[i] == exp[i]); sx_assert(same, "the decoded bytes are the bytes written in hexadecimal"); sx_obs_str(out, "bytes"); sx_reach("good"); }
  sx_obs(r, "ok"); sx_reach("done");
}
// bytes -> text -> bytes, long sequences
SX_HARNESS(u01_roundtrip)
{
  const size_t n = sx_pick("len", 0, sx_bound("bytes", 24));
  std::string b = sx_string("bytes", n), t, o;
  const bool up = sx_pick("upper", 0, 1);
  const char *dg = up ? "0123456789ABCDEF" : "0123456789abcdef";
  for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)b[i]; unsigned h = c >> 4, l = c & 15; t.push_back((char)(h < 10 ? '0' + h : dg[10] + h - 10)); t.push_back((char)(l < 10 ? '0' + l : dg[10] + l - 10)); }
  const bool r = pwned::hexToCharSeq(t, o);
  sx_assert(r, "the hexadecimal text of any bytes is decoded"); bool same = o.size() == n; for (size_t i = 0; i < n && i < o.size(); ++i) same = same & (o[i] == b[i]);
  sx_assert(same, "decoding inverts encoding for any bytes"); sx_reach("done");
}
SX_HARNESS(u02_popcount)
{
  uint64_t x = sx_any<uint64_t>("x"); unsigned r = pwned::popcnt64(x);
  uint64_t n = 0; for (int i = 0; i < 64; ++i) n += (x >> i) & 1;
  sx_obs(r, "count");
  sx_assert(r == n, "the number of one bits"); sx_reach("done");
}
// the use made of it: index files of 2^k keys are addressed by the k leading bits of a hash
SX_HARNESS(u02_bits)
{
  unsigned k = sx_pick("k", 0, 63); uint64_t n = 1ull << k;
  sx_assert(pwned::popcnt64(n - 1) == k, "2^k - 1 has k one bits"); sx_assert(pwned::popcnt64(n) == 1, "a power of two has one one bit"); sx_assert(pwned::popcnt64(~n) == 63, "its complement has 63");
  sx_reach("done");
}
SX_HARNESS(u04_text)
{
  const size_t n = sx_pick("len", 0, sx_bound("text", 8));
  std::string s = sx_string("text", n); for (char c : s) sx_assume((c != '%') & (c != 0));
  std::string r = pwned::string_format(s);
  bool same = r.size() == n; for (size_t i = 0; i < n && i < r.size(); ++i) same = same & (r[i] == s[i]);
  sx_assert(same, "a format without directives is copied"); sx_obs_str(r, "result"); sx_reach("done");
}
SX_HARNESS(u04_string)
{
  const size_t n = sx_pick("len", 0, sx_bound("arg", 24)), m = sx_pick("fmt", 0, 2);
  std::string s = sx_string("arg", n); for (char c : s) sx_assume(c != 0);
  static const char *pre[] = {"", "ab", ""}, *post[] = {"", " cdefghijkl", "%%"}, *fm[] = {"%s", "ab%s cdefghijkl", "%s%%%%"};
  std::string r = pwned::string_format(fm[m], s.c_str()), e = std::string(pre[m]) + s + (m == 2 ? "%%" : post[m]);
  bool same = r.size() == e.size(); for (size_t i = 0; i < r.size() && i < e.size(); ++i) same = same & (r[i] == e[i]);
  sx_assert(same, "a string argument is inserted in full"); sx_obs_str(r, "result"); sx_reach("done");
}
SX_HARNESS(u04_number)
{
  int32_t v = sx_any<int32_t>("v"); static const int32_t lim[] = {0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999};
  const unsigned m = sx_pick("m", 0, 1);
  sx_assume((v >= -99999) & (v <= 99999));
  std::string r = m ? pwned::string_format("x%dy", v) : pwned::string_format("%d", v);
  if (m) { sx_assert(r.size() > 2 && r[0] == 'x' && r[r.size() - 1] == 'y', "literal text around a number is kept"); r = r.substr(1, r.size() - 2); }
  int64_t a = 0; bool ok = !r.empty(), neg = false; size_t i = 0; if (ok && r[0] == '-') { neg = true; i = 1; ok = r.size() > 1; }
  for (; i < r.size(); ++i) { ok = ok & (r[i] >= '0') & (r[i] <= '9'); a = a * 10 + (r[i] - '0'); }
  sx_assert(ok, "a number is printed in decimal digits"); sx_assert((neg ? -a : a) == v, "the number printed is the argument"); sx_obs_str(r, "result"); sx_reach("done");
}

// ---- terminal: the two calls the class makes, on a recorded terminal state
static struct termios T; static int otherFd = 0;
extern "C" int tcgetattr(int fd, struct termios *t) noexcept { if (fd != 0) ++otherFd; *t = T; return 0; }
extern "C" int tcsetattr(int fd, int, const struct termios *t) noexcept { if (fd != 0) ++otherFd; else T = *t; return 0; }
static void anyTerm() { memset(&T, 0, sizeof T); T.c_iflag = sx_any<uint32_t>("iflag"); T.c_oflag = sx_any<uint32_t>("oflag"); T.c_cflag = sx_any<uint32_t>("cflag"); T.c_lflag = sx_any<uint32_t>("lflag"); sx_make_bytes(T.c_cc, sizeof T.c_cc, "cc"); }
static bool sameBut(const struct termios &a, const struct termios &b, uint32_t lmask) { bool s = (a.c_iflag == b.c_iflag) & (a.c_oflag == b.c_oflag) & (a.c_cflag == b.c_cflag) & ((a.c_lflag & ~lmask) == (b.c_lflag & ~lmask)); for (int i = 0; i < NCCS; ++i) s = s & (a.c_cc[i] == b.c_cc[i]); return s; }
SX_HARNESS(u05_terminal)
{
  anyTerm(); const struct termios T0 = T;
  {
    pwned::TermIO io;
    sx_assert(sameBut(T, T0, 0), "looking at the terminal does not change it");
    const unsigned n = sx_pick("ops", 0, sx_bound("ops", 4));
    for (unsigned i = 0; i < n; ++i) {
      const struct termios b = T;
      switch (sx_pick("op", 0, 5)) {
      case 0: io.disableEcho(); sx_assert(!(T.c_lflag & ECHO), "disableEcho turns echo off"); sx_assert(!(T.c_lflag & ICANON), "disableEcho leaves line mode"); sx_assert(sameBut(T, b, ECHO | ICANON), "disableEcho changes nothing else"); break;
      case 1: io.enableEcho(); sx_assert((T.c_lflag & ECHO) != 0, "enableEcho turns echo on"); sx_assert((T.c_lflag & ICANON) != 0, "enableEcho returns to line mode"); sx_assert(sameBut(T, b, ECHO | ICANON), "enableEcho changes nothing else"); break;
      case 2: io.disableBreak(); sx_assert(!(T.c_lflag & ISIG), "disableBreak turns signals off"); sx_assert(sameBut(T, b, ISIG), "disableBreak changes nothing else"); break;
      case 3: io.enableBreak(); sx_assert((T.c_lflag & ISIG) != 0, "enableBreak turns signals on"); sx_assert(sameBut(T, b, ISIG), "enableBreak changes nothing else"); break;
      case 4: pwned::setStdinEcho(true); sx_assert((T.c_lflag & ECHO) != 0, "setStdinEcho(true) turns echo on"); sx_assert(sameBut(T, b, ECHO), "setStdinEcho(true) changes nothing else"); break;
      default: pwned::setStdinEcho(false); sx_assert(!(T.c_lflag & ECHO), "setStdinEcho(false) turns echo off"); sx_assert(sameBut(T, b, ECHO), "setStdinEcho(false) changes nothing else"); break;
      }
    }
  }
  sx_assert(sameBut(T, T0, 0), "the terminal is restored to the state it was found in");
  sx_assert(!otherFd, "only standard input is touched");
  sx_reach("done");
}

// ---- UUID
SX_HARNESS(u06_text)
{
  pwned::UUID id; id.uuid[0] = sx_any<uint64_t>("hi"); id.uuid[1] = sx_any<uint64_t>("lo");
  std::ostringstream os; os << id; std::string s = os.str(); sx_obs_str(s, "text");
  sx_assert(s.size() == 36, "32 digits and four dashes"); if (s.size() != 36) return;
  uint64_t v[2] = {0, 0}; int k = 0; bool ok = true;
  for (int i = 0; i < 36; ++i) { if (i == 8 || i == 13 || i == 18 || i == 23) { ok = ok & (s[i] == '-'); continue; } unsigned char c = (unsigned char)s[i]; unsigned d = c <= '9' ? c - '0' : c - 'A' + 10; ok = ok & (d < 16) & ((c >= '0') & (c <= 'F')); v[k >> 4] = v[k >> 4] << 4 | (d & 15); ++k; }
  sx_assert(ok, "groups of 8, 4, 4, 4 and 12 hexadecimal digits"); sx_assert((v[0] == id.uuid[0]) & (v[1] == id.uuid[1]), "the text contains all 128 bits of the identifier");
  sx_reach("done");
}
SX_HARNESS(u06_equal)
{
  pwned::UUID a, b; a.uuid[0] = sx_any<uint64_t>("a0"); a.uuid[1] = sx_any<uint64_t>("a1"); b.uuid[0] = sx_any<uint64_t>("b0"); b.uuid[1] = sx_any<uint64_t>("b1");
  sx_assert((a == b) == ((a.uuid[0] == b.uuid[0]) & (a.uuid[1] == b.uuid[1])), "identifiers are equal exactly when all 128 bits are"); sx_assert(a == a, "an identifier equals itself"); sx_reach("done");
}
// U07: the figures of /proc/meminfo, in any order, with any other lines
static std::string number(const char *nm, uint64_t &v) { size_t n = sx_pick("digits", 1, sx_bound("digits", 2)); std::string s = sx_string(nm, n); v = 0; for (char c : s) { sx_assume((c >= '0') & (c <= '9')); v = v * 10 + (unsigned)(c - '0'); } return s; }
SX_HARNESS(u07_figures)
{
  static const char *U[] = {"kB", "MB", "GB", "B"}; static const uint64_t F[] = {1024, 1024 * 1024, 1024ull * 1024 * 1024, 1};
  const unsigned unit = sx_pick("unit", 0, 3), order = sx_pick("order", 0, 3), missing = sx_pick("missing", 0, 4); uint64_t v[4]; std::string ls[4]; static const char *N[] = {"MemTotal", "MemAvailable", "VmallocTotal", "VmallocUsed"};
  for (int i = 0; i < 4; ++i) { if (i == (int)order) { std::string d = number("value", v[i]); ls[i] = std::string(N[i]) + ":       " + d + " " + U[unit] + "\n"; v[i] *= F[unit]; } else { v[i] = (7 + i) * 1024; ls[i] = std::string(N[i]) + ":    " + char('7' + i > '9' ? '1' : '7' + i) + (i == 3 ? "0" : "") + " kB\n"; } if (i == (int)missing) { ls[i] = ""; v[i] = 0; } }
  std::string t = "MemFree:  5 kB\n"; for (int i = 0; i < 4; ++i) t += ls[(i + order) % 4] + "HugePages_Total:   3\n";
  if (sx_pick("file", 0, 1)) sx_fs_put("/proc/meminfo", t.data(), t.size()); else for (auto &x : v) x = 0;
  pwned::MemoryStat m; memset(&m, 0xAA, sizeof m); pwned::getMemoryStat(m);
  sx_obs(m.phys.total, "total"); sx_obs(m.phys.avail, "available"); sx_obs(m.virt.total, "virtual");
  sx_assert(m.phys.total == v[0], "the physical memory is what the system reports"); sx_assert(m.phys.avail == v[1], "the available memory is what the system reports");
  sx_assert(m.phys.used == v[0] - v[1], "used and available memory add up to all memory");
  sx_assert(m.virt.total == v[2] && m.virt.used == v[3] && m.virt.avail == v[2] - v[3], "the same holds for virtual memory"); sx_assert(m.phys.app == 0, "what the system does not report is zero"); sx_reach("done");
}
// results far beyond any first buffer
SX_HARNESS(u04_long)
{
  static const unsigned L[] = {60, 99, 127, 128, 255, 256, 257, 511, 512, 999, 1023, 1024, 1025, 2048, 4095, 4096, 5000}; const unsigned n = L[sx_pick("size", 0, sizeof L / sizeof *L - 1)], m = sx_pick("fmt", 0, 3);
  std::string v = sx_string("v", 2), s(n, 'y'); for (char c : v) sx_assume((c != 0) & (c != '%')); s[0] = v[0]; s[n - 1] = v[1];
  std::string r = m == 0 ? pwned::string_format("%s", s.c_str()) : m == 1 ? pwned::string_format("ab%s cd%d", s.c_str(), 17) : m == 2 ? pwned::string_format(s) : pwned::string_format(s + "%d%%", 4711);
  std::string e = m == 1 ? "ab" + s + " cd17" : m == 3 ? s + "4711%" : s; bool same = r.size() == e.size(); for (size_t i = 0; i < r.size() && i < e.size(); ++i) same = same & (r[i] == e[i]);
  sx_assert(same, "a text of any length is returned in full"); uint64_t z = r.size(); sx_obs(z, "size"); sx_reach("done");
}
SX_HARNESS(u01_long)
{
  static const unsigned L[] = {62, 64, 66, 126, 128, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1024, 2048, 4096}; const unsigned n = L[sx_pick("size", 0, sizeof L / sizeof *L - 1)], at = sx_pick("at", 0, 2); std::string t(n, '4'), o = "x", v = sx_string("v", 2); const unsigned p = at == 0 ? 0 : at == 1 ? n / 2 - n / 2 % 2 : n - n % 2 - 2; t[p] = v[0]; t[p + 1] = v[1];
  const int h = nib(v[0]), l = nib(v[1]); const bool good = (n % 2 == 0) & (h >= 0) & (l >= 0), r = pwned::hexToCharSeq(t, o); sx_assert(r == good, "decoding succeeds exactly for an even number of hexadecimal digits");
  if (good) { bool same = o.size() == n / 2; for (size_t i = 0; i < o.size() && i < n / 2; ++i) same = same & (o[i] == (i == p / 2 ? (char)(h << 4 | (l & 15)) : 'D')); sx_assert(same, "the decoded bytes are the bytes written in hexadecimal"); sx_reach("good"); }
  sx_obs(r, "ok"); sx_reach("done");
}
// numbers of realistic size
SX_HARNESS(u07_large)
{
  static const char *const V[] = {"4194303", "4194304", "4294967", "2147483647", "2147483648", "4294967295", "4294967296", "34359738367", "99999999999"}; std::string d = V[sx_pick("size", 0, 8)]; const unsigned at = sx_pick("at", 0, 1); char c = sx_any<char>("c"); sx_assume((c >= '0') & (c <= '9')); d[at ? d.size() - 1 : 1] = c;
  uint64_t v = 0; for (char x : d) v = v * 10 + (unsigned)(x - '0'); v *= 1024;
  std::string t = "MemTotal: " + d + " kB\nMemFree:  5 kB\nMemAvailable:    1000 kB\nVmallocTotal:   " + d + " kB\nVmallocUsed:       24 kB\n"; sx_fs_put("/proc/meminfo", t.data(), t.size());
  pwned::MemoryStat m; memset(&m, 0xAA, sizeof m); pwned::getMemoryStat(m); sx_obs(m.phys.total, "total"); sx_obs(m.virt.avail, "virtual");
  sx_assert(m.phys.total == v, "the physical memory is what the system reports"); sx_assert(m.phys.avail == 1024000, "the available memory is what the system reports"); sx_assert(m.phys.used == v - 1024000, "used and available memory add up to all memory"); sx_assert(m.virt.total == v && m.virt.used == 24576 && m.virt.avail == v - 24576, "the same holds for virtual memory"); sx_reach("done");
}
