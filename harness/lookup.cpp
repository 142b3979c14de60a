// L01 plain lookup, L02 interpolating lookup, L03 indexed lookup
#include <sx.h>
#include <cstring>
#include <vector>
#include <pwned-lib/passwordinspector.hpp>
using pwned::Hash; using pwned::PHC; using pwned::PasswordInspector;

struct DB { size_t n; uint64_t u[40], l[40]; uint32_t c[40]; };
static void le(std::string &s, uint64_t v, int k) { for (int i = 0; i < k; ++i) s.push_back((char)(v >> (8 * i))); }
// n strictly ascending records with arbitrary content and positive counts, stored as the file `name`
// narrow: 16 bits of every hash vary (the highest and the lowest byte) instead of all 128
static DB anyDb(const char *name, size_t n, size_t tail = 0, bool narrow = false)
{
  DB d; d.n = n; std::string s;
  for (size_t i = 0; i < n; ++i) {
    if (narrow) { d.u[i] = (uint64_t)sx_any<uint8_t>("u8") << 56; d.l[i] = sx_any<uint8_t>("l8"); } else { d.u[i] = sx_any<uint64_t>("u"); d.l[i] = sx_any<uint64_t>("l"); } d.c[i] = sx_any<uint32_t>("c"); sx_assume(d.c[i] > 0);
    for (size_t k = i; k--;) sx_assume((d.u[k] < d.u[i]) | ((d.u[k] == d.u[i]) & (d.l[k] < d.l[i]))); // all pairs: helps the solver
    le(s, d.u[i], 8); le(s, d.l[i], 8); le(s, d.c[i], 4);
  }
  for (size_t i = 0; i < tail; ++i) s.push_back(0);
  sx_fs_put(name, s.data(), s.size()); return d;
}
static uint32_t expected(const DB &d, const Hash &h) { uint32_t r = 0; for (size_t i = 0; i < d.n; ++i) r += ((d.u[i] == h.quad.upper) & (d.l[i] == h.quad.lower)) ? d.c[i] : 0; return r; }
static Hash anyQuery(const DB &d, bool narrow = false) { if (narrow) { uint64_t u = (uint64_t)sx_any<uint8_t>("qu8") << 56; return Hash(u, sx_any<uint8_t>("ql8")); } return Hash(sx_any<uint64_t>("qu"), sx_any<uint64_t>("ql")); }

// any history of lookups on one inspector: every answer is the stored count, or zero
SX_HARNESS(l01_history)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, sx_bound("n", 4)));
  PasswordInspector in("db.md5"); sx_assert(in.isOpen(), "an existing file is opened"); sx_assert(in.size() == d.n, "the size is the number of records");
  const size_t q = sx_bound("queries", 2);
  for (size_t i = 0; i < q; ++i) {
    Hash h = anyQuery(d); int reads = -1;
    PHC r = i & 1 ? in.binsearch(h) : in.binsearch(h, &reads);
    uint32_t e = expected(d, h); sx_obs(r.count, "count");
    sx_assert(r.count == e, "a lookup answers the stored count of the hash, zero when it is not stored");
    if (e) { sx_assert((r.hash.quad.upper == h.quad.upper) & (r.hash.quad.lower == h.quad.lower), "a hit carries the hash looked for"); sx_reach("hit"); } else sx_reach("miss");
    if (!(i & 1)) { size_t lim = 1; while ((size_t(1) << lim) < d.n + 1) ++lim; sx_assert((reads >= 0) & (reads <= (int)(2 * lim + 2)), "the number of reads is logarithmic"); }
  }
  sx_reach("done");
}
// one lookup in larger files, and in files that end in an incomplete record
SX_HARNESS(l01_single)
{
  static const uint8_t ns[] = {1, 2, 3, 5, 8, 13, 7, 16, 15, 17, 31, 32, 33};
  DB d = anyDb("db.md5", ns[sx_pick("records", 0, sx_bound("ns", 5))], sx_pick("tail", 0, 1) * 13, true);
  PasswordInspector in("db.md5"); Hash h = anyQuery(d, true); PHC r = in.binsearch(h); uint32_t e = expected(d, h); sx_obs(r.count, "count");
  sx_assert(r.count == e, "a lookup answers the stored count of the hash, zero when it is not stored");
  sx_reach("done");
}
// looking up a password is looking up its MD5 digest
SX_HARNESS(l01_password)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, 2));
  PasswordInspector in("db.md5");
  for (int i = 0; i < 2; ++i) {
    std::string p = sx_string("password", sx_pick("len", 0, 2)); uint8_t m[16]; sx_md5(p.data(), p.size(), m); uint64_t u = 0, l = 0; for (int k = 0; k < 8; ++k) { u = u << 8 | m[k]; l = l << 8 | m[8 + k]; }
    PHC r = in.lookup(p); uint32_t e = expected(d, Hash(u, l)); sx_obs(r.count, "count"); if (e) sx_reach("hit");
    sx_assert(r.count == e, "looking up a password answers the count stored for its MD5 digest");
  }
  sx_reach("done");
}
// interpolating lookups, plain lookups and their mixtures give the same answers
static void smartHistory(size_t maxn, size_t q, bool narrow)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, maxn), 0, narrow);
  PasswordInspector in("db.md5");
  for (size_t i = 0; i < q; ++i) {
    Hash h = anyQuery(d, narrow); int reads = -1; const bool smart = i + 1 == q ? sx_pick("smart", 0, 1) : true;
    PHC r = smart ? in.smart_binsearch(h, &reads) : in.binsearch(h, &reads);
    uint32_t e = expected(d, h); sx_obs(r.count, "count");
    sx_assert(r.count == e, "an interpolating lookup answers the stored count of the hash, zero when it is not stored");
    if (e) { sx_assert((r.hash.quad.upper == h.quad.upper) & (r.hash.quad.lower == h.quad.lower), "a hit carries the hash looked for"); sx_reach("hit"); }
    sx_assert(reads >= 0, "the number of reads is reported");
  }
  sx_reach("done");
}
SX_HARNESS(l02_history) { smartHistory(sx_bound("n", 3), sx_bound("queries", 2), true); }
SX_HARNESS(l02_full) { smartHistory(sx_bound("n", 2), 1, false); }
// lookups through an index: the entry of each k-bit prefix is the position of the first record with it, all ones without
static void putIndex(const DB &d, unsigned bits)
{
  std::string s; for (uint64_t p = 0; p < (1ull << bits); ++p) { uint64_t v = ~0ull; for (size_t i = d.n; i--;) v = (d.u[i] >> (64 - bits)) == p ? 20 * i : v; le(s, v, 8); }
  sx_fs_put("db.idx", s.data(), s.size());
}
static void indexHistory(size_t maxn, size_t q, bool narrow)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, maxn), 0, narrow); unsigned bits = sx_pick("bits", 1, sx_bound("bits", 2)); putIndex(d, bits);
  PasswordInspector in("db.md5", "db.idx"); sx_assert(in.isOpen(), "the files are opened");
  for (size_t i = 0; i < q; ++i) {
    Hash h = anyQuery(d, narrow); int reads = -1; PHC r = in.binsearch(h, &reads); uint32_t e = expected(d, h); sx_obs(r.count, "count");
    sx_assert(r.count == e, "a lookup through an index answers the stored count of the hash, zero when it is not stored");
    if (e) { sx_assert((r.hash.quad.upper == h.quad.upper) & (r.hash.quad.lower == h.quad.lower), "a hit carries the hash looked for"); sx_reach("hit"); }
  }
  sx_reach("done");
}
SX_HARNESS(l03_history) { indexHistory(sx_bound("n", 3), sx_bound("queries", 2), true); }
SX_HARNESS(l03_more) { indexHistory(sx_bound("n", 4), sx_bound("queries", 1), true); }
SX_HARNESS(l03_full) { indexHistory(sx_bound("n", 2), sx_bound("queries", 1), false); }
SX_HARNESS(l03_smart)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, sx_bound("n", 2)), 0, true); putIndex(d, 1);
  PasswordInspector in("db.md5", "db.idx"); Hash h = anyQuery(d, true); PHC r = sx_pick("smart", 0, 1) ? in.smart_binsearch(h) : in.binsearch(h); uint32_t e = expected(d, h); sx_obs(r.count, "count");
  sx_assert(r.count == e, "a lookup through an index answers the stored count of the hash, zero when it is not stored"); sx_reach("done");
}
// an empty index name means no index
SX_HARNESS(l03_noindex)
{
  DB d = anyDb("db.md5", sx_pick("records", 0, 3)); PasswordInspector in("db.md5", ""); Hash h = anyQuery(d); PHC r = in.binsearch(h); sx_assert(r.count == expected(d, h), "without an index the lookup searches the whole file"); sx_obs(r.count, "count"); sx_reach("done");
}
