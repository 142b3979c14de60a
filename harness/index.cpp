// L04 the index builder
#include <sx.h>
#include <cstring>
#include <vector>
#include <pwned-lib/passwordinspector.hpp>
using pwned::Hash; using pwned::PHC; using pwned::PasswordInspector;
int sx_main_index(int argc, const char *argv[]);
struct DB { size_t n; uint64_t u[8], l[8]; uint32_t c[8]; };
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
// narrow: the lowest byte and the highest and lowest four bits of the upper half vary
static DB anyDb(size_t n, size_t tail, bool narrow)
{
  DB d; d.n = n; std::string s;
  for (size_t i = 0; i < n; ++i) {
    if (narrow) { d.u[i] = (uint64_t)sx_any<uint8_t>("u8") << 56; d.l[i] = sx_any<uint8_t>("l8"); } else { d.u[i] = sx_any<uint64_t>("u"); d.l[i] = sx_any<uint64_t>("l"); } d.c[i] = sx_any<uint32_t>("c"); sx_assume(d.c[i] > 0);
    for (size_t k = i; k--;) sx_assume((d.u[k] < d.u[i]) | ((d.u[k] == d.u[i]) & (d.l[k] < d.l[i])));
    le(s, d.u[i], 8); le(s, d.l[i], 8); le(s, d.c[i], 4);
  }
  if (tail) { std::string t = sx_string("tail", tail); s += t; }
  sx_fs_put("db.md5", s.data(), s.size()); return d;
}
static int runIndex(unsigned bits) { std::string b = std::to_string(bits); const char *av[] = {"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", b.c_str(), nullptr}; return sx_main_index(7, av); }
static void checkIndex(const DB &d, unsigned bits)
{
  static uint8_t ix[8 << 8]; long m = sx_fs_get("db.idx", ix, sizeof ix);
  sx_assert(m == (long)(8ull << bits), "the index has one entry for each prefix"); if (m != (long)(8ull << bits)) return;
  for (uint64_t p = 0; p < (1ull << bits); ++p) {
    uint64_t v = 0, e = ~0ull; for (int k = 0; k < 8; ++k) v |= (uint64_t)ix[8 * p + k] << (8 * k);
    for (size_t i = d.n; i--;) e = (d.u[i] >> (64 - bits)) == p ? 20 * i : e;
    sx_assert(v == e, "an index entry is the position of the first record with its prefix, all ones without one");
    sx_obs(v, "entry");
  }
}
SX_HARNESS(l04_entries)
{
  const unsigned bits = sx_pick("bits", 1, sx_bound("bits", 3)); DB d = anyDb(sx_pick("records", 0, sx_bound("n", 3)), 0, false);
  sx_assert(runIndex(bits) == 0, "building an index succeeds"); checkIndex(d, bits); sx_reach("done");
}
SX_HARNESS(l04_tail)
{
  const unsigned bits = sx_pick("bits", 1, 2); DB d = anyDb(sx_pick("records", 0, 2), 1 + sx_pick("tail", 0, 18), true);
  sx_assert(runIndex(bits) == 0, "building an index succeeds"); checkIndex(d, bits); sx_reach("done");
}
// the index built leads to the same answers as the file alone
SX_HARNESS(l04_lookup)
{
  const unsigned bits = sx_pick("bits", 1, 2); DB d = anyDb(sx_pick("records", 0, sx_bound("n", 2)), 0, true); runIndex(bits);
  PasswordInspector in("db.md5", "db.idx"); uint64_t u = (uint64_t)sx_any<uint8_t>("qu8") << 56, l = sx_any<uint8_t>("ql8"); PHC r = in.binsearch(Hash(u, l)); uint32_t e = 0; for (size_t i = 0; i < d.n; ++i) e += ((d.u[i] == u) & (d.l[i] == l)) ? d.c[i] : 0;
  sx_obs(r.count, "count"); sx_assert(r.count == e, "a lookup through the index built answers the stored count"); if (e) sx_reach("hit"); sx_reach("done");
}
// L07 what the index builder cannot do
static int run(std::vector<const char *> a) { a.push_back(nullptr); return sx_main_index((int)a.size() - 1, a.data()); }
SX_HARNESS(l07_refused)
{
  DB d = anyDb(1, 0, true); const std::string keep = "former index"; sx_fs_put("db.idx", keep.data(), keep.size()); const unsigned what = sx_pick("what", 0, 7); int rc = 0;
  if (what == 0) rc = run({"pwned-index", "--input", "none.md5", "--output", "db.idx", "--bits", "2"});
  if (what == 1) rc = run({"pwned-index", "--input", "db.md5", "--bits", "2"});
  if (what == 2) rc = run({"pwned-index", "--output", "db.idx", "--bits", "2"});
  if (what == 3) rc = run({"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", "2", "--no-such-option"});
  if (what == 4) rc = run({"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", "two"});
  if (what == 5) { const unsigned b = sx_pick("bits", 0, 3); static const char *const B[] = {"0", "64", "65", "4294967295"}; rc = run({"pwned-index", "--input", "db.md5", "--output", "db.idx", "--bits", B[b]}); }
  if (what == 6) rc = run({"pwned-index", "--input", "db.md5", "--output", "none/db.idx", "--bits", "2"});
  if (what == 7) rc = run({"pwned-index", "--input", "none.md5", "--output", "none/db.idx", "--bits", "2"});
  sx_assert(rc != 0, "what cannot be done is reported"); char b[32]; long m = sx_fs_get("db.idx", b, sizeof b); sx_assert(m == (long)keep.size() && memcmp(b, keep.data(), keep.size()) == 0, "a former index is kept"); static uint8_t t[64]; sx_assert(sx_fs_get("db.md5", t, sizeof t) == 20, "the database is kept"); sx_reach("done");
}
// whatever cannot be opened or written, an index reported as built is complete
SX_HARNESS(l07_faults)
{
  DB d = anyDb(sx_pick("records", 0, 2), 0, true); std::string before(40, 0); const long size = sx_fs_get("db.md5", &before[0], 40); const unsigned what = sx_pick("fault", 0, 2); static const long LIMITS[] = {0, 1, 8, 16, 31, 32}; if (what == 1) sx_fault(sx_pick("open", 1, 3), -1); if (what == 2) sx_fault(0, LIMITS[sx_pick("limit", 0, 5)]);
  const int r = runIndex(2); const bool hit = sx_fault_hits() > 0; sx_fault(0, -1); if (r == 0) checkIndex(d, 2); else { sx_assert(hit, "building an index succeeds"); sx_reach("failed"); }
  std::string after(40, 0); sx_assert(sx_fs_get("db.md5", &after[0], 40) == size && memcmp(before.data(), after.data(), 40) == 0, "the database is kept"); sx_obs(r != 0, "status"); sx_reach("done");
}
// a database that cannot be read from some position on
SX_HARNESS(l07_read)
{
  const size_t n = sx_pick("records", 0, 2); DB d = anyDb(n, 0, true); const std::string keep = "keep me"; sx_fs_put("db.idx", keep.data(), keep.size()); static const long P[] = {0, 1, 16, 19, 20, 36, 40}; sx_fault_read("db.md5", P[sx_pick("position", 0, n == 0 ? 0 : n == 1 ? 4 : 6)]);
  const int r = runIndex(2); const bool hit = sx_fault_hits() > 0; sx_fault_read(nullptr, 0); if (r == 0) checkIndex(d, 2); else { sx_assert(hit, "building an index succeeds"); sx_reach("failed"); char b[32]; long m = sx_fs_get("db.idx", b, sizeof b); sx_assert(m == (long)keep.size() && memcmp(b, keep.data(), keep.size()) == 0, "a former index is kept"); }
  sx_obs(r != 0, "status"); sx_reach("done");
}
SX_HARNESS(l07_own)
{
  DB d = anyDb(2, 0, true); std::string before(40, 0), after(40, 0); sx_fs_get("db.md5", &before[0], 40); int r = run({"pwned-index", "--input", "db.md5", "--output", sx_pick("name", 0, 1) ? "./db.md5" : "db.md5", "--bits", "2"});
  sx_assert(r != 0, "the database cannot be the index"); sx_assert(sx_fs_get("db.md5", &after[0], 40) == 40 && memcmp(before.data(), after.data(), 40) == 0, "the database is kept"); sx_reach("done");
}
// more prefix bits; the records lie on both sides of the boundary of a prefix
SX_HARNESS(l04_bits)
{
  static const unsigned B[] = {4, 7, 8, 9, 12, 15, 16, 17}; const unsigned bits = B[sx_pick("bits", 0, sx_bound("widths", 7))]; DB d; d.n = 4; std::string s; const uint64_t one = 1ull << (64 - bits);
  uint64_t base[4] = {0, one, 0x5ull << 60, ~0ull << (64 - bits)};
  for (size_t i = 0; i < 4; ++i) { const unsigned off = sx_pick("offset", 0, 3); d.u[i] = base[i] + (off == 0 ? 0 : off == 1 ? one - 1 : off == 2 ? one / 2 : sx_any<uint8_t>("u")); d.l[i] = 7 + i; d.c[i] = 1;  le(s, d.u[i], 8); le(s, d.l[i], 8); le(s, d.c[i], 4); }
  sx_fs_put("db.md5", s.data(), s.size()); sx_assert(runIndex(bits) == 0, "building an index succeeds");
  static uint8_t ix[8 << 17]; long m = sx_fs_get("db.idx", ix, sizeof ix); sx_assert(m == (long)(8ull << bits), "the index has one entry for each prefix"); if (m != (long)(8ull << bits)) return;
  for (size_t i = 0; i < 4; ++i) { const uint64_t p = base[i] >> (64 - bits); uint64_t v = 0; for (int k = 0; k < 8; ++k) v |= (uint64_t)ix[8 * p + k] << (8 * k); sx_assert(v == 20 * i, "an index entry is the position of the first record with its prefix"); for (int k = 0; k < 8; ++k) ix[8 * p + k] = 0xff; }
  uint64_t rest = ~0ull; for (size_t w = 0; w < (1ull << bits); ++w) { uint64_t v; memcpy(&v, ix + 8 * w, 8); rest &= v; } sx_assert(rest == ~0ull, "all other entries are all ones"); sx_reach("done");
}
// a file of several gigabytes: all records between the first and the last two have the prefix of the first one
static std::string jumpRecords; static uint64_t jumpTo;
static size_t jumpByte(uint64_t pos, unsigned char *o, size_t n) { const uint64_t size = jumpTo + 40; if (pos >= size) return 0; const uint64_t from = pos < 20 ? pos : 20 + pos - jumpTo; if (pos >= 20 && pos < jumpTo) sx_unsupported("reading between"); size_t k = 0; for (; k < n && from + k < 60 && (pos >= 20 || pos + k < 20); ++k) o[k] = (unsigned char)jumpRecords[from + k]; return k; }
#ifndef SX_NATIVE
#include <sxfs.hpp>
extern "C" long sxfs_virt_read(SxFile *, size_t pos, void *p, size_t n) { return (long)jumpByte(pos, (unsigned char *)p, n); }
static void putJump(const char *name) { SxFile *f = sxfs_create(name); f->virt = true; f->vsize = jumpTo + 40; f->jumpAt = 20; f->jumpTo = jumpTo; }
#else
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
static ino_t jumpIno; static bool jumpOn = false;
static void putJump(const char *name) { int fd = open(name, O_CREAT | O_RDWR | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, (off_t)(jumpTo + 40)) != 0) sx_unsupported("no sparse files here"); struct stat st; fstat(fd, &st); jumpIno = st.st_ino; close(fd); jumpOn = true; }
extern "C" int sx_read_hook(int fd, void *p, size_t n, ssize_t *r)
{
  struct stat st; if (!jumpOn || fstat(fd, &st) != 0 || st.st_ino != jumpIno) return 0;
  off_t pos = lseek(fd, 0, SEEK_CUR); size_t k = jumpByte((uint64_t)pos, (unsigned char *)p, n); pos += (off_t)k; lseek(fd, pos == 20 ? (off_t)jumpTo : pos, SEEK_SET); *r = (ssize_t)k; return 1;
}
#endif
SX_HARNESS(l04_huge)
{
  static const uint64_t P[] = {107374182ull, 214748364ull, 429496729ull, 4294967296ull, 1ull << 33}; jumpTo = 20 * (P[sx_pick("size", 0, 4)] - 1 + sx_pick("more", 0, 2)); const unsigned bits = 2;
  DB d; d.n = 3; std::string s; for (size_t i = 0; i < 3; ++i) { d.u[i] = (uint64_t)sx_any<uint8_t>("u8") << 56; d.l[i] = 7 * i; for (size_t k = i; k--;) sx_assume(d.u[k] <= d.u[i]); le(s, d.u[i], 8); le(s, d.l[i], 8); le(s, 1, 4); }
  jumpRecords = s; putJump("db.md5"); sx_assert(runIndex(bits) == 0, "building an index succeeds");
  uint8_t ix[32]; sx_assert(sx_fs_get("db.idx", ix, sizeof ix) == 32, "the index has one entry for each prefix");
  // who counts the records sees three of them only
  bool seen = true, counted = true; for (uint64_t p = 0; p < 4; ++p) { uint64_t v = 0, e = ~0ull, c = ~0ull; for (int k = 0; k < 8; ++k) v |= (uint64_t)ix[8 * p + k] << (8 * k); for (size_t i = 3; i--;) { e = (d.u[i] >> 62) == p ? (i ? jumpTo + 20 * (i - 1) : 0) : e; c = (d.u[i] >> 62) == p ? 20 * i : c; } seen = seen & (v == e); counted = counted & (v == c); sx_obs(v, "entry"); }
  sx_assert(seen | counted, "an index entry is the position of the first record with its prefix"); sx_reach("done");
}
