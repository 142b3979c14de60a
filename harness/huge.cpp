// L05 lookups in files of several gigabytes (content produced on demand)
#include <sx.h>
#include <cstring>
#include <pwned-lib/passwordinspector.hpp>
using pwned::Hash; using pwned::PHC; using pwned::PasswordInspector;
// record i: upper half i << 30, lower half 5, count i * 7 + 1
static void recordByte(uint64_t pos, unsigned char *out, size_t n)
{
  for (size_t k = 0; k < n; ++k) { uint64_t i = (pos + k) / 20; unsigned b = (unsigned)((pos + k) % 20); uint64_t v = b < 8 ? (i << 30) >> (8 * b) : b < 16 ? uint64_t(5) >> (8 * (b - 8)) : uint64_t((uint32_t)(i * 7 + 1)) >> (8 * (b - 16)); out[k] = (unsigned char)v; }
}
#ifndef SX_NATIVE
#include <sxfs.hpp>
extern "C" long sxfs_virt_read(SxFile *f, size_t pos, void *p, size_t n) { if (pos >= f->vsize) return 0; if (n > f->vsize - pos) n = f->vsize - pos; unsigned char b[20], *o = (unsigned char *)p; if (n > 20) n = 20; recordByte(pos, b, n); memcpy(o, b, n); return (long)n; }
static void putVirtual(const char *name, uint64_t size) { SxFile *f = sxfs_create(name); f->virt = true; f->vsize = size; }
#else
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
static ino_t virtIno; static uint64_t virtSize; static bool virtOn = false;
static void putVirtual(const char *name, uint64_t size) { int fd = open(name, O_CREAT | O_RDWR | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, (off_t)size) != 0) sx_unsupported("no sparse files here"); struct stat st; fstat(fd, &st); virtIno = st.st_ino; virtSize = size; close(fd); virtOn = true; }
extern "C" int sx_read_hook(int fd, void *p, size_t n, ssize_t *r)
{
  struct stat st; if (!virtOn || fstat(fd, &st) != 0 || st.st_ino != virtIno) return 0;
  off_t pos = lseek(fd, 0, SEEK_CUR); *r = -1; if (pos < 0) return 1; *r = 0; if ((uint64_t)pos >= virtSize) return 1; if (n > virtSize - (uint64_t)pos) n = virtSize - (uint64_t)pos;
  if (n > 4096) n = 4096; recordByte((uint64_t)pos, (unsigned char *)p, n); lseek(fd, pos + (off_t)n, SEEK_SET); *r = (ssize_t)n; return 1;
}
#endif
// number of records: just beyond 2^31 bytes, 2^32 bytes, and 2^32 records
static const uint64_t SIZES[] = {107374190ull, 214748370ull, 4294967300ull};
// a hash anywhere in a window of 32 records: eight positions from one record to the next
static Hash anyQuery(uint64_t n, uint64_t &a, uint32_t &e)
{
  const uint64_t pos[] = {0, n - 32, n / 2 - 16, 107374182ull - 16, 214748364ull - 16, 2147483648ull - 16, n / 4096 * 20};
  a = pos[sx_pick("window", 0, 6)]; if (a + 32 > n) sx_prune();
  uint8_t q = sx_any<uint8_t>("query"), ql = sx_any<uint8_t>("lower"); uint64_t u = (a << 30) + ((uint64_t)q << 27);
  e = ((q & 7) == 0) & (ql == 5) ? (uint32_t)((a + q / 8) * 7 + 1) : 0; return Hash(u, ql);
}
static void huge(int mode)
{
  const uint64_t n = SIZES[sx_pick("size", 0, 2)]; putVirtual("db.md5", 20 * n);
  if (mode == 2) { std::string s; for (uint64_t p = 0; p < 8; ++p) { uint64_t i = p << (61 - 30), v = i < n ? 20 * i : ~0ull; for (int k = 0; k < 8; ++k) s.push_back((char)(v >> (8 * k))); } sx_fs_put("db.idx", s.data(), s.size()); }
  PasswordInspector in("db.md5", mode == 2 ? "db.idx" : ""); sx_assert(in.size() == n, "the number of records of a huge file");
  uint64_t a; uint32_t e; Hash h = anyQuery(n, a, e); PHC r = mode == 1 ? in.smart_binsearch(h) : in.binsearch(h);
  sx_obs(r.count, "count"); sx_assert(r.count == e, "the answer in a huge file is the count stored"); if (e) { sx_assert((r.hash.quad.upper == h.quad.upper) & (r.hash.quad.lower == h.quad.lower), "a hit carries the hash looked for"); sx_reach("hit"); } sx_reach("done");
}
SX_HARNESS(l05_plain) { huge(0); }
SX_HARNESS(l05_smart) { huge(1); }
SX_HARNESS(l05_index) { huge(2); }
