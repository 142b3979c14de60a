// Native side of the harness API: replays one assignment against the really compiled code.
#define SX_NATIVE
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <cerrno>
#include <set>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <dirent.h>
#include <pthread.h>
#include <dlfcn.h>
typedef std::string Str;
static std::map<Str, void (*)()> &regs() { static std::map<Str, void (*)()> r; return r; }
SxReg::SxReg(const char *n, void (*f)()) { regs()[n] = f; }
static std::deque<std::pair<Str, Str>> inputs; static std::map<Str, Str> md5s; static std::map<Str, uint64_t> bounds; static std::map<uint64_t, uint64_t> kvs;
static FILE *obsF;
static Str unhex(const Str &h) { Str r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtoul(h.substr(i, 2).c_str(), 0, 16); return r; }
static void die(int code, const Str &m) { fflush(stdout); dprintf(2, "%s\n", m.c_str()); if (obsF) fflush(obsF); _exit(code); }
extern "C" {
static Str nextInput(const char *name, size_t n) {
  if (inputs.empty()) die(97, Str("SXDESYNC: no more inputs, wanted ") + name);
  auto p = inputs.front(); inputs.pop_front();
  if (p.first != name || p.second.size() != n) die(97, "SXDESYNC: have " + p.first + " want " + name);
  return p.second;
}
void sx_make(void *p, size_t n, const char *name) { Str s = nextInput(name, n); memcpy(p, s.data(), n); }
void sx_make_bytes(void *p, size_t n, const char *name) { sx_make(p, n, name); }
void sx_assume(int c) { if (!c) die(96, "SXASSUME"); }
void sx_assert_(int c, const char *m) { if (!c) die(77, Str("SXFAIL: ") + m); }
void sx_fail(const char *m) { die(77, Str("SXFAIL: ") + m); abort(); }
void sx_unsupported(const char *m) { die(98, Str("SXUNSUP: ") + m); abort(); }
void sx_reach(const char *) {}
uint64_t sx_choose(uint64_t x) { return x; }
void sx_observe(const void *p, size_t n, const char *name) { if (!obsF) return; fprintf(obsF, "%s ", name); for (size_t i = 0; i < n; ++i) fprintf(obsF, "%02x", ((const unsigned char *)p)[i]); fprintf(obsF, "\n"); }
int sx_symbolic(void) { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
uint64_t sx_bound(const char *n, uint64_t d) { auto it = bounds.find(n); return it == bounds.end() ? d : it->second; }
void sx_end(void) { die(0, ""); abort(); }
void sx_prune(void) { die(96, "SXASSUME"); abort(); }
void sx_print(const char *) {}
uint64_t sx_kv_get(uint64_t k) { return kvs[k]; }
void sx_kv_set(uint64_t k, uint64_t v) { kvs[k] = v; }
int sx_md5_lookup(const void *in, size_t n, void *out) { auto it = md5s.find(Str((const char *)in, n)); if (it == md5s.end()) return 0; memcpy(out, it->second.data(), 16); return 1; }
// the digests chosen by the solver, the library's own otherwise
static int md5Yield; void sx_md5_yield(int on) { md5Yield = on; } void sx_yield(void);
unsigned char *MD5(const unsigned char *d, size_t n, unsigned char *md) {
  static unsigned char st[16]; if (!md) md = st;
#ifdef SX_THREADS
  if (md5Yield) sx_yield();
#endif
  if (sx_md5_lookup(d, n, md)) return md;
  typedef unsigned char *(*Fn)(const unsigned char *, size_t, unsigned char *); static Fn real = (Fn)dlsym(RTLD_NEXT, "MD5"); return real(d, n, md);
}
void sx_md5_real(int) {}
void sx_md5(const void *in, size_t n, void *out) { MD5((const unsigned char *)in, n, (unsigned char *)out); }
// standard input and output
void sx_stdin(const void *p, size_t n) { FILE *t = tmpfile(); if (!t) die(97, "SXDESYNC: tmpfile"); fwrite(p, 1, n, t); fflush(t); lseek(fileno(t), 0, SEEK_SET); dup2(fileno(t), 0); clearerr(stdin); std::cin.clear(); }
static FILE *outT;
static void capture() { outT = tmpfile(); if (!outT) die(97, "SXDESYNC: tmpfile"); dup2(fileno(outT), 1); }
size_t sx_stdout_get(char *p, size_t cap) { std::cout.flush(); fflush(stdout); long n = lseek(1, 0, SEEK_END); if (n < 0) n = 0; size_t k = (size_t)n < cap ? (size_t)n : cap; if (k && pread(1, p, k, 0) != (ssize_t)k) die(97, "SXDESYNC: stdout"); return (size_t)n; }
size_t sx_stdout_size() { return sx_stdout_get(nullptr, 0); }
// what the program reads as /proc/meminfo is a file of the scratch directory; with threads, another one may run before a stream opens a file for writing
static const char *sxMap(const char *p) { return strcmp(p, "/proc/meminfo") == 0 ? "proc-meminfo" : p; }
void sx_yield(void);
static FILE *rawOpen(const char *p, const char *m) { static FILE *(*real)(const char *, const char *); if (!real) real = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen"); return real(p, m); }
// faults
static uint64_t faultOpen = 0; static long faultLimit = -1; static int faultHits = 0; static std::map<FILE *, std::pair<size_t, bool>> limited;   // bytes written and error of stdio files
static const char *faultFile = nullptr;
void sx_fault_file(const char *p) { faultFile = p; }
void sx_fault(uint64_t open_at, long limit) { faultOpen = open_at; faultLimit = limit; }
static int openMost = 0; static std::set<FILE *> openNow;
void sx_open_files(int most) { openMost = most; openNow.clear(); }
static const char *readFile = nullptr; static long readPos = 0;
void sx_fault_read(const char *p, long pos) { readFile = p; readPos = pos; }
int sx_fault_hits(void) { return faultHits; }
static size_t room(int fd, size_t n) { struct stat st; if (faultLimit < 0 || fd <= 2 || (obsF && fd == fileno(obsF)) || fstat(fd, &st) || !S_ISREG(st.st_mode)) return n; long pos = lseek(fd, 0, SEEK_CUR); if (pos < 0) return n; if (pos + (long)n <= faultLimit) return n; ++faultHits; return pos < faultLimit ? (size_t)(faultLimit - pos) : 0; }
void (*sx_written)(void) = nullptr;
static bool regular(int fd) { struct stat st; return fd > 2 && !(obsF && fd == fileno(obsF)) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode); }
static ssize_t wrote(int fd, ssize_t r) { if (sx_written && regular(fd)) sx_written(); return r; }
ssize_t write(int fd, const void *p, size_t n) { size_t k = room(fd, n); if (k == 0 && n) { wrote(fd, 0); errno = EFBIG; return -1; } return wrote(fd, syscall(SYS_write, fd, p, k)); }
ssize_t writev(int fd, const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; size_t k = room(fd, n); if (k == n) return wrote(fd, syscall(SYS_writev, fd, v, c)); if (!k) { wrote(fd, 0); errno = EFBIG; return -1; } Str s; for (int i = 0; i < c; ++i) s.append((const char *)v[i].iov_base, v[i].iov_len); return wrote(fd, syscall(SYS_write, fd, s.data(), k)); }
__attribute__((weak)) int sx_read_hook(int, void *, size_t, ssize_t *);   // a harness may stand in for reading
ssize_t read(int fd, void *p, size_t n) { ssize_t r; if (sx_read_hook && sx_read_hook(fd, p, n, &r)) return r; struct stat a, b; if (readFile && n && fstat(fd, &a) == 0 && stat(readFile, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) { long pos = lseek(fd, 0, SEEK_CUR); if (pos >= readPos) { ++faultHits; errno = EIO; return -1; } if (pos + (long)n > readPos) n = (size_t)(readPos - pos); } return syscall(SYS_read, fd, p, n); }
static const size_t bufferSize = 4096;
#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { REAL(fwrite, size_t, const void *, size_t, size_t, FILE *); auto it = limited.find(f); if (it == limited.end() || faultLimit < 0) return real(p, s, n, f); size_t was = it->second.first, all = s * n; it->second.first += all; if (it->second.first > (size_t)faultLimit) { if (!it->second.second) ++faultHits; it->second.second = true; if (was < (size_t)faultLimit) real(p, 1, (size_t)faultLimit - was, f); return was + all > bufferSize ? 0 : n; } return real(p, s, n, f); }
int fputs(const char *s, FILE *f) { return fwrite(s, 1, strlen(s), f) == strlen(s) ? 1 : EOF; }
int fputc(int c, FILE *f) { char x = (char)c; return fwrite(&x, 1, 1, f) == 1 ? (unsigned char)c : EOF; }
int fclose(FILE *f) { REAL(fclose, int, FILE *); if (openMost) openNow.erase(f); bool bad = false; auto it = limited.find(f); if (it != limited.end()) { bad = it->second.second; limited.erase(it); } int r = real(f); return bad ? EOF : r; }
int fflush(FILE *f) { REAL(fflush, int, FILE *); auto it = limited.find(f); int r = real(f); return it != limited.end() && it->second.second ? EOF : r; }
int ferror(FILE *f) throw() { REAL(ferror, int, FILE *); auto it = limited.find(f); return real(f) || (it != limited.end() && it->second.second); }
FILE *fopen(const char *p, const char *m) {
#ifdef SX_THREADS
  if (*m != 'r' || m[1] == '+' || (m[1] && m[2] == '+')) sx_yield();
#endif
  struct stat fa, fb; if (faultFile && stat(p, &fa) == 0 && stat(faultFile, &fb) == 0 && fa.st_ino == fb.st_ino && fa.st_dev == fb.st_dev) { ++faultHits; errno = EACCES; return nullptr; }
  if (faultOpen && --faultOpen == 0) { ++faultHits; errno = EMFILE; return nullptr; }
  if (openMost && (int)openNow.size() >= openMost) { ++faultHits; errno = EMFILE; return nullptr; }
  FILE *f = rawOpen(sxMap(p), m); if (f && openMost) openNow.insert(f); if (f && faultLimit >= 0) limited[f] = {0, false}; return f;
}
void sx_fs_put(const char *path, const void *d, size_t n) { FILE *f = rawOpen(sxMap(path), "wb"); if (!f) die(97, "SXDESYNC: cannot write"); fwrite(d, 1, n, f); fclose(f); }
long sx_fs_get(const char *path, void *b, size_t cap) { fflush(nullptr); return sx_fs_disk(path, b, cap); }
long sx_fs_disk(const char *path, void *b, size_t cap) { struct stat st; if (stat(path, &st) != 0 || !S_ISREG(st.st_mode)) return -1; FILE *f = rawOpen(sxMap(path), "rb"); if (!f) return -1; size_t k = cap ? fread(b, 1, cap, f) : 0; (void)k; fclose(f); return (long)st.st_size; }
static int countIn(const Str &p) { int n = 0; DIR *d = opendir(p.c_str()); if (!d) return 0; while (dirent *e = readdir(d)) { Str q = p + "/" + e->d_name; struct stat st; if (Str(e->d_name) == "." || Str(e->d_name) == ".." || lstat(q.c_str(), &st) != 0) continue; if (S_ISREG(st.st_mode)) ++n; else if (S_ISDIR(st.st_mode)) n += countIn(q); } closedir(d); return n; }
int sx_fs_count(void) { return countIn("."); }
const char *sx_tmpdir(void) { const char *t = getenv("TMPDIR"); return t ? t : "/tmp"; }
// ---- cooperative threads: one runs at a time, hand-over decided by the recorded schedule
struct NT { pthread_t t; void *(*fn)(void *); void *arg; int stat = 0; uint64_t key = 0; bool timed = false, timedOut = false; };
static std::vector<NT *> ths; static __thread int me = 0; static int cur = 0, preempt = 0; static bool thOn = false;
static pthread_mutex_t *bigM; static pthread_cond_t *bigC;
}
#include <semaphore.h>
#include <atomic>
static std::vector<sem_t *> sems;
extern "C" {
static void thInit() { if (thOn) return; thOn = true; ths.reserve(64); sems.reserve(64); NT *m = new NT(); ths.push_back(m); sem_t *s = new sem_t; sem_init(s, 0, 0); sems.push_back(s); preempt = (int)sx_bound("preempt", 2); }
int sx_threads_on(void) { return thOn; }
static void handTo(int t) { if (t == me) return; int self = me; cur = t; sem_post(sems[t]); if (ths[self]->stat != 2) { while (sem_wait(sems[self]) != 0) {} } }
static void pick(bool canContinue) {
  std::vector<int> ch; if (canContinue) ch.push_back(me);
  if (!canContinue || preempt > 0) for (int i = 0; i < (int)ths.size(); ++i) if (i != me && ths[i]->stat == 0) ch.push_back(i);
  bool timeout = false;
  if (ch.empty()) { for (int i = 0; i < (int)ths.size(); ++i) if (ths[i]->stat == 1 && ths[i]->timed) ch.push_back(i); timeout = !ch.empty(); }
  if (ch.empty()) die(77, "SXFAIL: deadlock: no thread can run");
  int k = 0; if (ch.size() > 1) k = (unsigned char)nextInput("sched", 1)[0];
  if (k >= (int)ch.size()) die(97, "SXDESYNC: sched");
  if (k > 0 && canContinue) --preempt;
  if (timeout) { ths[ch[k]]->stat = 0; ths[ch[k]]->timedOut = true; }
  handTo(ch[k]);
}
static void *thMain(void *p) { int id = (int)(long)p; me = id; while (sem_wait(sems[id]) != 0) {} ths[id]->fn(ths[id]->arg); ths[id]->stat = 2; uint64_t key = 0x7000000000ull + id; for (auto *t : ths) if (t->stat == 1 && t->key == key) t->stat = 0; pick(false); return nullptr; }
int __real_pthread_create_for_sx(pthread_t *t, void *(*fn)(void *), void *a);
int sx_thread_create(void *(*fn)(void *), void *arg) {
  thInit(); NT *n = new NT(); n->fn = fn; n->arg = arg; int id = (int)ths.size(); ths.push_back(n); sem_t *s = new sem_t; sem_init(s, 0, 0); sems.push_back(s);
  if (pthread_create(&n->t, nullptr, thMain, (void *)(long)id)) die(97, "SXDESYNC: pthread_create"); pthread_detach(n->t); return id;
}
int sx_self(void) { return me; }
void sx_yield(void) { thInit(); pick(true); }
void sx_block(uint64_t key, uint64_t timed) { thInit(); NT *t = ths[me]; t->stat = 1; t->key = key; t->timed = timed; t->timedOut = false; pick(false); }
int sx_timed_out(void) { return thOn && ths[me]->timedOut; }
void sx_wake(uint64_t key, uint64_t all) {
  if (!thOn) return; std::vector<int> w; for (int i = 0; i < (int)ths.size(); ++i) if (ths[i]->stat == 1 && ths[i]->key == key) w.push_back(i);
  if (all || w.size() <= 1) { for (int i : w) ths[i]->stat = 0; return; }
  int k = (unsigned char)nextInput("wake", 1)[0]; if (k >= (int)w.size()) die(97, "SXDESYNC: wake"); ths[w[k]]->stat = 0;
}
int sx_thread_done(uint64_t t) { return t < ths.size() && ths[t]->stat == 2; }
}
// allocations of size zero have no usable byte
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define SX_POISON(p) __asan_poison_memory_region(p, 8)
#endif
#endif
#ifndef SX_POISON
#define SX_POISON(p)
#endif
extern "C" void *__real__Znam(size_t);
extern "C" void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); if (!n) SX_POISON(p); return p; }
int main(int argc, char **argv) { // replay <entry> <replay file> <observation file> <scratch dir>
  if (argc < 5) return 99;
  std::ifstream f(argv[2]); if (!f) return 99;
  Str line; while (std::getline(f, line)) { std::istringstream is(line); Str t, a, b; is >> t >> a >> b; if (t == "I") inputs.push_back({a, unhex(b)}); else if (t == "M") { if (b.empty()) { md5s[""] = unhex(a); } else md5s[a == "-" ? "" : unhex(a)] = unhex(b); } else if (t == "A") bounds[a] = strtoull(b.c_str(), 0, 0); }
  f.close();
  obsF = rawOpen(argv[3], "w"); if (!obsF) return 99;
  if (chdir(argv[4]) != 0) return 99;
  capture();
  auto it = regs().find(argv[1]); if (it == regs().end()) return 99;
  try { it->second(); }
  catch (std::exception &e) { die(77, Str("SXFAIL: uncaught exception ") + e.what()); }
  catch (...) { die(77, "SXFAIL: uncaught exception"); }
  fflush(stdout); fflush(obsF); _exit(0);
}
