// H01 hash comparison, H02 hex codec, H03 password hashing, H04 record codec
#include <sx.h>
#include <pwned-lib/hash.hpp>
#include <pwned-lib/passwordhashandcount.hpp>
#include <sstream>
using pwned::Hash; using pwned::PHC;

static Hash anyHash(const char *n) { uint64_t u = sx_any<uint64_t>(n), l = sx_any<uint64_t>(n); Hash h(u, l); uint8_t v; sx_make(&v, 1, n); h.isValid = v & 1; return h; }

// all six relations against the lexicographic order on (upper, lower)
SX_HARNESS(h01_relations)
{
  Hash a = anyHash("a"), b = anyHash("b");
  const bool same = (a.quad.upper == b.quad.upper) & (a.quad.lower == b.quad.lower);
  const bool less = (a.quad.upper < b.quad.upper) | ((a.quad.upper == b.quad.upper) & (a.quad.lower < b.quad.lower));
  const bool valid = a.isValid == b.isValid;
  const bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b, hl = pwned::HashLess()(a, b);
  const bool pl = pwned::PasswordHashAndCountLess()(PHC(a, 1), PHC(b, 2)), pe = PHC(a, 1) == PHC(b, 2);
  sx_assert(eq == (same & valid), "== is equality of digest and validity");
  sx_assert(ne == !eq, "!= is the negation of ==");
  sx_assert(lt == less, "< is the order of the digests");
  sx_assert(gt == ((!less) & (!same)), "> is the converse order");
  sx_assert(hl == less, "HashLess is the order of the digests");
  sx_assert(pl == less, "PasswordHashAndCountLess orders by hash only");
  sx_assert(pe == eq, "records compare equal when their hashes do");
  if (valid) { sx_assert(le == !gt, "<= is the negation of >"); sx_assert(ge == !lt, ">= is the negation of <"); sx_reach("valid"); }
  sx_reach("done");
}
// laws over three values, stated without reference to the representation
SX_HARNESS(h01_laws)
{
  Hash a = anyHash("a"), b = anyHash("b"), c = anyHash("c");
  a.isValid = b.isValid = c.isValid = true;
  sx_assert(!(a < a), "< is irreflexive"); sx_assert(a == a, "== is reflexive"); sx_assert(!(a != a), "a value does not differ from itself");
  sx_assert(!((a < b) & (b < a)), "< is asymmetric");
  sx_assert(((a < b) + (b < a) + (a == b)) == 1, "exactly one of <, ==, > holds");
  sx_assert((!((a < b) & (b < c))) | (a < c), "< is transitive");
  sx_assert((!((a == b) & (b == c))) | (a == c), "== is transitive");
  Hash d; d = a; sx_assert(d == a, "assignment preserves the value"); Hash e(a); sx_assert(e == a, "copying preserves the value");
  sx_reach("done");
}

static int nib(char c) { unsigned char u = (unsigned char)c; if ((u >= '0') & (u <= '9')) return u - '0'; if ((u >= 'a') & (u <= 'f')) return u - 'a' + 10; if ((u >= 'A') & (u <= 'F')) return u - 'A' + 10; return -1; }
// H02: text of any length and content to hash
SX_HARNESS(h02_fromhex)
{
  static const uint8_t lens[] = {0, 1, 2, 15, 16, 30, 31, 32, 33, 34, 64};
  size_t n = lens[sx_pick("len", 0, sizeof lens - 1)];
  std::string s = sx_string("text", n);
  Hash h = Hash::fromHex(s);
  bool good = n == 32; uint8_t b[16] = {0};
  if (n == 32) for (int i = 0; i < 16; ++i) { int hi = nib(s[2 * i]), lo = nib(s[2 * i + 1]); good = good & (hi >= 0) & (lo >= 0); b[i] = (uint8_t)(hi << 4 | (lo & 15)); }
  sx_assert(h.isValid == good, "a hash is valid exactly when the text is 32 hexadecimal digits");
  if (good) {
    uint64_t u = 0, l = 0; for (int i = 0; i < 8; ++i) { u = u << 8 | b[i]; l = l << 8 | b[8 + i]; }
    sx_assert((h.quad.upper == u) & (h.quad.lower == l), "the digits are read most significant first");
    sx_assert(h == Hash(u, l), "a parsed hash equals the same hash built from numbers");
    sx_obs(h.quad.upper, "upper"); sx_obs(h.quad.lower, "lower"); sx_reach("valid");
  }
  sx_obs(h.isValid, "isValid"); sx_reach("done");
}
// H02: hash to text, both cases, and back
SX_HARNESS(h02_tostring)
{
  Hash h(sx_any<uint64_t>("u"), sx_any<uint64_t>("l"));
  const bool upper = sx_pick("upper", 0, 1);
  std::string s = h.toString(upper);
  sx_obs_str(s, "text");
  sx_assert(s.size() == 32, "the text has 32 digits");
  const char *dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  for (int i = 0; i < 32; ++i) { uint64_t q = i < 16 ? h.quad.upper : h.quad.lower; unsigned d = (q >> (60 - 4 * (i & 15))) & 15; sx_assert(s[i] == dg[d], "every digit of the text is the digit of the value"); }
  sx_reach("done");
}
SX_HARNESS(h02_stream)
{
  Hash h(sx_any<uint64_t>("u"), sx_any<uint64_t>("l"));
  std::ostringstream os; os << h; std::string s = os.str();
  sx_obs_str(s, "text");
  Hash k = Hash::fromHex(s);
  sx_assert(k.isValid, "the printed form is accepted"); sx_assert((k.quad.upper == h.quad.upper) & (k.quad.lower == h.quad.lower), "parsing the printed form gives the hash back");
  sx_reach("done");
}
// H03: a password hashes to the MD5 digest of exactly its bytes, read big-endian
SX_HARNESS(h03_password)
{
  static const uint16_t lens[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 63, 64, 200, 255, 256, 257, 1000, 1024, 4096};
  size_t n = lens[sx_pick("len", 0, sx_bound("lens", 18) - 1)];
  std::string s = n > 200 ? std::string(n, 'p') : sx_string("password", n); if (n > 200) { std::string v = sx_string("v", 3); s[0] = v[0]; s[200] = v[1]; s[n - 1] = v[2]; }
  uint8_t d[16]; sx_md5(s.data(), n, d);
  Hash h(s);
  uint64_t u = 0, l = 0; for (int i = 0; i < 8; ++i) { u = u << 8 | d[i]; l = l << 8 | d[8 + i]; }
  sx_assert(h.isValid, "the hash of a password is valid");
  sx_assert((h.quad.upper == u) & (h.quad.lower == l), "the hash of a password is the MD5 digest of its bytes, most significant byte first");
  sx_obs(h.quad.upper, "upper"); sx_obs(h.quad.lower, "lower");
  sx_reach("done");
}
// H03: the hash of a password and the same digest given as hexadecimal text are the same value
SX_HARNESS(h03_samevalue)
{
  std::string s = sx_string("password", sx_pick("len", 0, 5));
  uint8_t d[16]; sx_md5(s.data(), s.size(), d);
  std::string hex; for (int i = 0; i < 16; ++i) { hex.push_back("0123456789abcdef"[d[i] >> 4]); hex.push_back("0123456789abcdef"[d[i] & 15]); }
  Hash h(s), k = Hash::fromHex(hex);
  sx_assert(k.isValid, "the digest text is accepted"); sx_assert(h == k, "hashing the password and parsing its digest text give equal values"); sx_assert(!(h != k) & !(h < k) & !(k < h), "and compare equal in every relation");
  sx_obs(h.quad.upper, "upper");
  sx_reach("done");
}
// H04: records written and read back, at any position, from a file of any length (partial records included)
SX_HARNESS(h04_write)
{
  const size_t n = sx_pick("records", 1, sx_bound("n", 3));
  PHC r[4]; { std::ofstream f("rec.bin", std::ios::binary); for (size_t i = 0; i < n; ++i) { r[i] = PHC(Hash(sx_any<uint64_t>("u"), sx_any<uint64_t>("l")), sx_any<uint32_t>("count")); r[i].dump(f); } }
  uint8_t b[128]; long sz = sx_fs_get("rec.bin", b, sizeof b);
  sx_assert(sz == (long)(20 * n), "a record takes 20 bytes");
  for (size_t i = 0; i < n; ++i) {
    bool same = true; for (int k = 0; k < 8; ++k) same = same & (b[20 * i + k] == (uint8_t)(r[i].hash.quad.upper >> (8 * k))) & (b[20 * i + 8 + k] == (uint8_t)(r[i].hash.quad.lower >> (8 * k)));
    for (int k = 0; k < 4; ++k) same = same & (b[20 * i + 16 + k] == (uint8_t)(r[i].count >> (8 * k)));
    sx_assert(same, "a record is upper half, lower half, count, each little-endian");
  }
  std::ifstream f("rec.bin", std::ios::binary); PHC q;
  for (size_t i = 0; i < n; ++i) { const bool ok = q.read(f); sx_assert(ok, "a complete record can be read"); sx_assert((q.hash.quad.upper == r[i].hash.quad.upper) & (q.hash.quad.lower == r[i].hash.quad.lower) & (q.count == r[i].count), "a record read back is the record written"); }
  sx_assert(!q.read(f), "there is no record behind the last one");
  f.clear(); size_t at = sx_pick("at", 0, n - 1); sx_assert(q.read(f, 20 * at), "a record can be read at its position"); sx_assert((q.hash.quad.upper == r[at].hash.quad.upper) & (q.hash.quad.lower == r[at].hash.quad.lower) & (q.count == r[at].count), "reading at a position gives the record stored there");
  sx_obs(q.hash.quad.upper, "upper"); sx_obs(q.count, "count");
  sx_reach("done");
}
SX_HARNESS(h04_read)
{
  const size_t n = sx_pick("bytes", 0, sx_bound("bytes", 45));
  std::string s = sx_string("file", n); sx_fs_put("in.bin", s.data(), n);
  const uint8_t *b = (const uint8_t *)s.data();
  { std::ifstream f("in.bin", std::ios::binary); std::ofstream o("out.bin", std::ios::binary); PHC p; size_t k = 0;
    while (p.read(f)) { p.dump(o); if (++k > 4) sx_fail("more records than the file holds"); }
    sx_assert(k == n / 20, "exactly the complete records are read"); }
  uint8_t c[64]; long m = sx_fs_get("out.bin", c, sizeof c); bool same = m == (long)(n / 20 * 20); for (long i = 0; i < m; ++i) same = same & (c[i] == b[i]);
  sx_assert(same, "reading and writing records reproduces their bytes");
  { std::ifstream f("in.bin", std::ios::binary); Hash h; size_t k = 0; while (h.read(f)) { uint64_t u = 0, l = 0; for (int i = 0; i < 8; ++i) { u |= (uint64_t)b[16 * k + i] << (8 * i); l |= (uint64_t)b[16 * k + 8 + i] << (8 * i); } sx_assert((h.quad.upper == u) & (h.quad.lower == l), "a hash read is the bytes stored"); if (++k > 4) sx_fail("more hashes than the file holds"); }
    sx_assert(k == n / 16, "exactly the complete hashes are read"); }
  size_t at = sx_pick("at", 0, 2); { std::ifstream f("in.bin", std::ios::binary); PHC p; const bool ok = p.read(f, 20 * at + 1); sx_assert(ok == (20 * at + 21 <= n), "a record at an offset is read exactly when it is complete"); if (ok) { sx_assert((uint8_t)p.count == b[20 * at + 17], "and is the bytes at that offset"); sx_obs(p.count, "count"); } }
  sx_reach("done");
}
