// Harness API.  The same harness runs symbolically (in the executor, where these functions are built in)
// and natively (sxnative.cpp, which takes the inputs from a replay file).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
void sx_make(void *p, size_t n, const char *name);        // n bytes of arbitrary input (2/4/8 bytes: one variable)
void sx_make_bytes(void *p, size_t n, const char *name);  // n bytes, one variable each
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg) __attribute__((noreturn));
void sx_unsupported(const char *msg) __attribute__((noreturn));
void sx_reach(const char *label);
uint64_t sx_choose(uint64_t x);                           // fork over every feasible value
void sx_observe(const void *p, size_t n, const char *name);
int sx_symbolic(void);                                    // 1 in the executor, 0 natively
int sx_is_symbolic(uint64_t x);
uint64_t sx_bound(const char *name, uint64_t dflt);       // tier-dependent bound
void sx_end(void) __attribute__((noreturn));
void sx_prune(void) __attribute__((noreturn));
void sx_print(const char *s);
void sx_md5(const void *in, size_t n, void *out);
void sx_md5_yield(int on);                                // with threads: another one may run whenever MD5() is called
void sx_md5_real(int on);                                 // from now on MD5() of bytes without a variable is what it really is
uint64_t sx_kv_get(uint64_t k); void sx_kv_set(uint64_t k, uint64_t v);
// threads
int sx_thread_create(void *(*fn)(void *), void *arg);
int sx_self(void); void sx_yield(void); void sx_block(uint64_t key, uint64_t timed); int sx_timed_out(void); void sx_wake(uint64_t key, uint64_t all); int sx_thread_done(uint64_t t);
void sx_keys(const char *s, size_t n);                     // what getchar delivers (then it waits for ever); in checks with threads
// files (in-memory file system in the executor, a scratch directory natively)
void sx_fs_put(const char *path, const void *data, size_t n);
long sx_fs_get(const char *path, void *buf, size_t cap);  // size of the file, or -1; copies up to cap bytes
long sx_fs_disk(const char *path, void *buf, size_t cap);  // the same, without what the program still holds in buffers
extern void (*sx_written)(void);                          // called after the program has written to a stream
int sx_fs_count(void);                                    // number of existing files
void sx_fault(uint64_t open_at, long limit);               // from now on the open_at-th opening of a file fails (0: none), and files do not grow beyond limit bytes (-1: no limit)
void sx_fault_file(const char *path);                     // from now on opening that file fails (null: none)
void sx_open_files(int most);                              // not more than that many files can be open at once from now on (0: any number)
void sx_fault_read(const char *path, long pos);           // from now on what that file holds from that position on cannot be read (null: all can be)
int sx_fault_hits(void);                                  // how often that has taken effect
const char *sx_tmpdir(void);                              // what temp_directory_path() answers
// standard input and output of the program
void sx_stdin(const void *p, size_t n);
size_t sx_stdout_get(char *p, size_t cap);                // everything written so far; returns its size
unsigned char *MD5(const unsigned char *d, size_t n, unsigned char *md);
}
#define sx_assert(c, msg) sx_assert_((c) ? 1 : 0, msg)
template <class T> static inline T sx_any(const char *name) { T v; sx_make(&v, sizeof v, name); return v; }
// arbitrary value in [lo, hi], explored case by case
static inline uint64_t sx_pick(const char *name, uint64_t lo, uint64_t hi) { uint8_t b; sx_make(&b, 1, name); sx_assume((b >= lo) & (b <= hi)); return sx_choose(b); }
static inline std::string sx_string(const char *name, size_t n) { std::string s(n, '\0'); if (n) sx_make_bytes(&s[0], n, name); return s; }
template <class T> static inline void sx_obs(const T &v, const char *name) { sx_observe(&v, sizeof v, name); }
static inline void sx_obs_str(const std::string &s, const char *name) { uint64_t n = s.size(); sx_observe(&n, 8, name); sx_observe(s.data(), s.size(), name); }
#ifdef SX_NATIVE
struct SxReg { SxReg(const char *n, void (*f)()); };
#define SX_HARNESS(name) extern "C" void sxh_##name(); static SxReg sxreg_##name(#name, sxh_##name); extern "C" void sxh_##name()
#else
#define SX_HARNESS(name) extern "C" __attribute__((used)) void sxh_##name()
#endif
