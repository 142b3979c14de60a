// Files: std::__basic_file<char> and stdio over the in-memory file system.
#include <ios>
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include "sx.h"
#include "sxfs.hpp"
extern "C" {
__attribute__((weak)) void sx_create_point(void) {}   // another thread may run before a stream creates or truncates a file
SxFile sxFiles[SX_MAXF];
// paths are compared after dropping "./" prefixes and doubled slashes
static void sx_norm(const char *p, char *o) { size_t n = 0; while (p[0] == '.' && p[1] == '/') p += 2; for (; *p && n < 95; ++p) { if (*p == '/' && n && o[n - 1] == '/') continue; o[n++] = *p; } if (*p) sx_unsupported("file name longer than 95 characters"); while (n > 1 && o[n - 1] == '/') --n; o[n] = 0; }
SxFile *sxfs_find(const char *path) { char n[96]; sx_norm(path, n); for (int i = 0; i < SX_MAXF; ++i) if (sxFiles[i].exists && strcmp(sxFiles[i].name, n) == 0) return &sxFiles[i]; return nullptr; }
SxFile *sxfs_create(const char *path) {
  SxFile *f = sxfs_find(path); if (f) { f->size = 0; return f; }
  if (!*path) return nullptr;
  for (int i = 0; i < SX_MAXF; ++i) if (!sxFiles[i].exists && !sxFiles[i].data) { f = &sxFiles[i]; sx_norm(path, f->name); f->exists = true; f->isDir = f->readOnly = f->virt = false; f->jumpTo = 0; f->data = nullptr; f->size = f->cap = 0; return f; }
  sx_unsupported("too many files");
}
void sxfs_reserve(SxFile *f, size_t n) { if (n <= f->cap) return; size_t c = f->cap ? f->cap * 2 : 256; while (c < n) c *= 2; unsigned char *d = (unsigned char *)malloc(c); if (f->size) memcpy(d, f->data, f->size); f->data = d; f->cap = c; } // the old block stays for open handles
__attribute__((weak)) long sxfs_virt_read(SxFile *, size_t, void *, size_t) { sx_unsupported("virtual file"); }
long sxfs_read(SxFile *f, size_t pos, void *p, size_t n) {
  if (f->virt) return sxfs_virt_read(f, pos, p, n);
  if (pos >= f->size) return 0; if (n > f->size - pos) n = f->size - pos; memcpy(p, f->data + pos, n); return (long)n;
}
static uint64_t sxFaultOpen = 0; static long sxFaultLimit = -1; static int sxFaultHits = 0;
void sx_fault(uint64_t open_at, long limit) { sxFaultOpen = open_at; sxFaultLimit = limit; }
int sx_fault_hits(void) { return sxFaultHits; }
static int sxOpenNow = 0, sxOpenMost = 0;
void sx_open_files(int most) { sxOpenMost = most; }
static const char *sxFaultFile = nullptr;
void sx_fault_file(const char *p) { sxFaultFile = p; }
static const char *sxReadFile = nullptr; static long sxReadPos = 0;
void sx_fault_read(const char *p, long pos) { sxReadFile = p; sxReadPos = pos; }
// what a program reads: -1 where that is impossible
static long progRead(SxFile *f, size_t pos, void *p, size_t n) { if (sxReadFile && f == sxfs_find(sxReadFile)) { if (n && pos >= (size_t)sxReadPos) { ++sxFaultHits; errno = EIO; return -1; } if (pos + n > (size_t)sxReadPos) n = (size_t)sxReadPos - pos; } return sxfs_read(f, pos, p, n); }
static bool faultyOpen(SxFile *f) { if (sxFaultFile && f && f == sxfs_find(sxFaultFile)) { ++sxFaultHits; return true; } if (sxOpenMost && sxOpenNow >= sxOpenMost) { ++sxFaultHits; return true; } if (!sxFaultOpen || --sxFaultOpen) return false; ++sxFaultHits; return true; }
// what a program writes, unlike sxfs_write, which the harness uses
static long progWrite(SxFile *f, size_t pos, const void *p, size_t n) { if (sxFaultLimit >= 0 && pos + n > (size_t)sxFaultLimit) { ++sxFaultHits; n = pos < (size_t)sxFaultLimit ? (size_t)sxFaultLimit - pos : 0; } return sxfs_write(f, pos, p, n); }
long sxfs_write(SxFile *f, size_t pos, const void *p, size_t n) {
  if (!n) return 0; if (pos + n > (64u << 20)) sx_unsupported("file larger than 64 MB");
  sxfs_reserve(f, pos + n); if (pos > f->size) memset(f->data + f->size, 0, pos - f->size); memcpy(f->data + pos, p, n); if (pos + n > f->size) f->size = pos + n; return (long)n;
}
bool sxfs_remove(const char *path) { SxFile *f = sxfs_find(path); if (!f) return false; f->exists = false; return true; }
void sx_fs_put(const char *path, const void *d, size_t n) { SxFile *f = sxfs_create(path); sxfs_write(f, 0, d, n); }
void (*sx_written)(void) = nullptr;
long sx_fs_get(const char *path, void *b, size_t cap) { fflush(nullptr); return sx_fs_disk(path, b, cap); }
long sx_fs_disk(const char *path, void *b, size_t cap) { SxFile *f = sxfs_find(path); if (!f || f->isDir) return -1; if (f->size < cap) cap = f->size; if (cap) memcpy(b, f->data, cap); return (long)f->size; }
const char *sx_tmpdir(void) { return "/tmp"; }
int sx_fs_count(void) { int n = 0; for (int i = 0; i < SX_MAXF; ++i) n += sxFiles[i].exists && !sxFiles[i].isDir; return n; }

// stdio
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)(sxFiles + 0), *stdout = (FILE *)(sxFiles + 1), *stderr = (FILE *)(sxFiles + 2);  // never dereferenced
typedef SxHandle H;
static H *hOf(FILE *f) { return (H *)f; }
static H *openFiles = nullptr; static const size_t SX_BUFSIZ = 4096;
static int flush(H *h) { if (!h->pending) return 0; if (h->app) h->pos = h->f->size; size_t n = h->pending; h->pending = 0; long k = progWrite(h->f, h->pos, h->buf, n); h->pos += k; if (k < (long)n) { h->bad = true; return EOF; } return 0; }
static bool isStd(FILE *f) { return f == stdin || f == stdout || f == stderr; }
FILE *fopen(const char *path, const char *mode) {
  bool rd = false, wr = false, tr = false, ap = false; char m = mode[0]; bool plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
  if (m == 'r') { rd = true; wr = plus; } else if (m == 'w') { wr = true; tr = true; rd = plus; } else { wr = true; ap = true; rd = plus; }
  bool ok; SxFile *f = sxfs_open(path, rd, wr, tr, ap, &ok); if (!ok) return nullptr;
  H *h = (H *)calloc(1, sizeof(H)); h->f = f; h->pos = ap ? f->size : 0; h->rd = rd; h->wr = wr; h->app = ap; h->open = true; h->next = openFiles; openFiles = h; return (FILE *)h;
}
static bool sxHasParent(const char *path) { char n[96]; sx_norm(path, n); char *q = strrchr(n, '/'); if (!q || q == n) return true; *q = 0; if (strcmp(n, "/tmp") == 0 || strcmp(n, ".") == 0) return true; SxFile *d = sxfs_find(n); return d && d->isDir; }
SxFile *sxfs_open(const char *path, bool rd, bool wr, bool tr, bool ap, bool *ok) {
  SxFile *f = sxfs_find(path); *ok = false; if (faultyOpen(f)) return nullptr;
  if (f && f->isDir) return nullptr;
  if (!f) { if (!wr || !(tr || ap) || !sxHasParent(path)) return nullptr; f = sxfs_create(path); if (!f) return nullptr; }
  else { if (wr && f->readOnly) return nullptr; if (tr) f->size = 0; }
  *ok = true; ++sxOpenNow; return f;
}
int fclose(FILE *f) { H *h = hOf(f); --sxOpenNow; int r = flush(h); for (H **p = &openFiles; *p; p = &(*p)->next) if (*p == h) { *p = h->next; break; } free(h->buf); free(h); return r; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { H *h = hOf(f); const size_t all = s * n; if (!h->wr) return 0; if (h->pending + all > SX_BUFSIZ && flush(h)) return 0; if (all > SX_BUFSIZ) { if (h->app) h->pos = h->f->size; long k = progWrite(h->f, h->pos, p, all); h->pos += k; if (k < (long)all) h->bad = true; return s ? k / s : 0; } if (!h->buf) h->buf = (unsigned char *)malloc(SX_BUFSIZ); memcpy(h->buf + h->pending, p, all); h->pending += all; return s ? n : 0; }
size_t fread(void *p, size_t s, size_t n, FILE *f) { H *h = hOf(f); flush(h); long k = progRead(h->f, h->pos, p, s * n); if (k < 0) { h->bad = true; return 0; } h->pos += k; return s ? k / s : 0; }
int ferror(FILE *f) { return isStd(f) ? 0 : hOf(f)->bad; }
int fputs(const char *s, FILE *f) { return (int)fwrite(s, 1, strlen(s), f); }
int fputc(int c, FILE *f) { char x = (char)c; return fwrite(&x, 1, 1, f) == 1 ? c : EOF; }
int fflush(FILE *f) { if (f) return isStd(f) ? 0 : flush(hOf(f)); int r = 0; for (H *h = openFiles; h; h = h->next) r |= flush(h); return r; }
int remove(const char *p) { return sxfs_remove(p) ? 0 : -1; }
int unlink(const char *p) { return sxfs_remove(p) ? 0 : -1; }
int rename(const char *a, const char *b) { SxFile *f = sxfs_find(a); if (!f) return -1; sxfs_remove(b); strcpy(f->name, b); return 0; }
}
namespace std {
typedef __basic_file<char> BF;
BF::__basic_file(__c_lock *) throw() { _M_cfile = nullptr; _M_cfile_created = false; }
BF::~__basic_file() { close(); }
static inline SxHandle *H_(BF *b) { return (SxHandle *)b->_M_cfile; }
BF *BF::open(const char *name, ios_base::openmode m, int) {
  if (is_open()) return nullptr;
  bool in = m & ios_base::in, out = m & ios_base::out, tr = m & ios_base::trunc, ap = m & ios_base::app;
  bool rd, wr, t = false, a = false;
  if (!in && out && !tr && !ap) { wr = true; rd = false; t = true; }
  else if (!in && !tr && ap) { wr = true; rd = false; a = true; }
  else if (!in && out && tr && !ap) { wr = true; rd = false; t = true; }
  else if (in && !out && !tr && !ap) { rd = true; wr = false; }
  else if (in && out && !tr && !ap) { rd = wr = true; }
  else if (in && out && tr && !ap) { rd = wr = true; t = true; }
  else if (in && !tr && ap) { rd = wr = true; a = true; }
  else return nullptr;
  if (wr) sx_create_point();
  bool ok; SxFile *f = sxfs_open(name, rd, wr, t, a, &ok); if (!ok) return nullptr;
  SxHandle *h = (SxHandle *)calloc(1, sizeof(SxHandle)); h->f = f; h->pos = (a || (m & ios_base::ate)) ? f->size : 0; h->rd = rd; h->wr = wr; h->app = a; h->open = true;
  if (!(m & ios_base::ate) && a) h->pos = 0;
  _M_cfile = (__c_file *)h; _M_cfile_created = true; return this;
}
bool BF::is_open() const throw() { return _M_cfile != nullptr; }
int BF::fd() throw() { return 3; }
__c_file *BF::file() throw() { return _M_cfile; }
BF *BF::close() { if (!is_open()) return nullptr; --sxOpenNow; free(_M_cfile); _M_cfile = nullptr; return this; }
streamsize BF::xsgetn(char *s, streamsize n) { SxHandle *h = H_(this); if (!h->rd) return -1; const bool j = h->f->jumpTo && h->pos < h->f->jumpAt; if (j && n > (long)(h->f->jumpAt - h->pos)) n = h->f->jumpAt - h->pos; long k = progRead(h->f, h->pos, s, n); if (k < 0) return k; h->pos += k; if (j && h->pos == h->f->jumpAt) h->pos = h->f->jumpTo; return k; }
streamsize BF::xsputn(const char *s, streamsize n) { SxHandle *h = H_(this); if (!h->wr) return 0; if (h->app) h->pos = h->f->size; long k = progWrite(h->f, h->pos, s, n); h->pos += k; if (sx_written) sx_written(); return k; }
streamsize BF::xsputn_2(const char *a, streamsize n, const char *b, streamsize m) { streamsize r = 0; if (n) r = xsputn(a, n); if (r == n) r += xsputn(b, m); return r; }
streamoff BF::seekoff(streamoff o, ios_base::seekdir w) throw() {
  SxHandle *h = H_(this); long base = w == ios_base::beg ? 0 : w == ios_base::cur ? (long)h->pos : (long)(h->f->virt ? h->f->vsize : h->f->size);
  long p = base + o; p = (long)sx_choose((uint64_t)p); if (p < 0) return -1; h->pos = (size_t)p; return p;
}
int BF::sync() { return 0; }
streamsize BF::showmanyc() { SxHandle *h = H_(this); size_t s = h->f->virt ? h->f->vsize : h->f->size; return h->pos < s ? (streamsize)(s - h->pos) : 0; }
}
