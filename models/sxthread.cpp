#define __NO_INLINE__ 1
// Threads: std::mutex, std::condition_variable, std::thread, call_once and the keyboard over the scheduler of
// the harness API.  The same source serves the executor and (with SX_THREADS) the native replay, so that both
// take the same decisions.  Hand-over points: before a mutex is acquired, when a thread blocks, starts or ends, before a wait or a notification,
// before a stream opens a file for writing, and in the middle of linking and unlinking list nodes.
#include <mutex>
#include <list>
#include <condition_variable>
#include <thread>
#include <memory>
#include <cerrno>
#include <cstring>
#include <sched.h>
#include <pthread.h>
#include "sx.h"
#if defined(SX_NATIVE)
#define W(x) __wrap_##x
#else
#define W(x) x
#endif
extern "C" {
static inline uint64_t K(const void *p) { return (uint64_t)p; }
static std::string *sxKeys; static size_t sxKeyAt;
void sx_keys(const char *s, size_t n) { sxKeys = new std::string(s, n); sxKeyAt = 0; }
static int nextKey() { sx_yield(); if (sxKeys && sxKeyAt < sxKeys->size()) return (unsigned char)(*sxKeys)[sxKeyAt++]; for (;;) sx_block(0x6000000001ull, 0); }
int W(getchar)(void) { return nextKey(); }
int W(getc)(FILE *) { return nextKey(); }
int W(pthread_mutex_lock)(pthread_mutex_t *m) {
  sx_yield(); int me = sx_self() + 1;
  if (m->__data.__lock && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__owner == me) { ++m->__data.__count; return 0; }
  while (m->__data.__lock) sx_block(K(m), 0);
  m->__data.__lock = 1; m->__data.__owner = me; m->__data.__count = 1; return 0;
}
int W(pthread_mutex_trylock)(pthread_mutex_t *m) { sx_yield(); if (m->__data.__lock) return EBUSY; m->__data.__lock = 1; m->__data.__owner = sx_self() + 1; m->__data.__count = 1; return 0; }
static void unlock(pthread_mutex_t *m) { m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0; sx_wake(K(m), 1); }
int W(pthread_mutex_unlock)(pthread_mutex_t *m) {
  if (!m->__data.__lock) sx_fail("a mutex is unlocked that is not locked");
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && --m->__data.__count) return 0;
  unlock(m); return 0;
}
static void relock(pthread_mutex_t *m) { while (m->__data.__lock) sx_block(K(m), 0); m->__data.__lock = 1; m->__data.__owner = sx_self() + 1; m->__data.__count = 1; }
int W(pthread_once)(pthread_once_t *o, void (*f)()) {
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) break;
    sx_block(K(o), 0);
  }
  *o = 1;
  try { f(); } catch (...) { *o = 0; sx_wake(K(o), 1); throw; }
  *o = 2; sx_wake(K(o), 1); return 0;
}
#if !defined(SX_NATIVE)
int pthread_setschedparam(pthread_t, int, const sched_param *) { return 1; }
int pthread_getschedparam(pthread_t, int *p, sched_param *s) { *p = 0; s->sched_priority = 0; return 0; }
pthread_t pthread_self() { return (pthread_t)sx_self(); }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
#else
int W(pthread_setschedparam)(pthread_t, int, const sched_param *) { return 1; }
int W(pthread_getschedparam)(pthread_t, int *p, sched_param *s) { *p = 0; s->sched_priority = 0; return 0; }
#endif
#if !defined(SX_NATIVE)
void sx_create_point(void) { sx_yield(); }
#endif
static void *runState(void *p) { std::thread::_State_ptr t((std::thread::_State *)p); t->_M_run(); return nullptr; }
}
namespace std {
#if !defined(SX_NATIVE)
__thread void *__once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
thread::_State::~_State() {}
#endif
namespace __detail { // a list is linked and unlinked in two steps: an unprotected list is seen half changed
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; sx_yield(); p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; sx_yield(); n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; sx_yield(); this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_mutex_t *m = l.mutex()->native_handle(); if (!m->__data.__lock) sx_fail("waiting without holding the mutex"); sx_yield(); unlock(m); sx_block(K(this), 0); relock(m); }
void condition_variable::notify_one() noexcept { sx_yield(); sx_wake(K(this), 0); }
void condition_variable::notify_all() noexcept { sx_yield(); sx_wake(K(this), 1); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { int i = sx_thread_create(runState, s.release()); _M_id = id((native_handle_type)i); sx_yield(); }
void thread::join() { if (_M_id == id()) __throw_system_error(EINVAL); uint64_t i = (uint64_t)native_handle(); while (!sx_thread_done(i)) sx_block(0x7000000000ull | i, 0); _M_id = id(); }
void thread::detach() { if (_M_id == id()) __throw_system_error(EINVAL); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)sx_bound("cores", 2); }
}
