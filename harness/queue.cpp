// Q01-Q03 semaphore and operation queue under every schedule
#include <sx.h>
#include <thread>
#include <vector>
#include "pwned-lib/operationqueue.hpp"
using pwned::Operation; using pwned::OperationQueue; using pwned::Semaphore;
static int inside, most, done_, waits, notifies;
SX_HARNESS(q01_exclusion)
{
  unsigned cap = sx_any<unsigned>("capacity"); sx_assume((cap > 0) & (cap < 0x80000000u)); unsigned n = (unsigned)sx_bound("threads", 3); Semaphore *s = new Semaphore(cap);
  { std::vector<std::thread> t; for (unsigned i = 0; i < n; ++i) t.push_back(std::thread([s] { s->wait(); ++inside; if (inside > most) most = inside; sx_yield(); --inside; s->notify(); ++done_; })); for (auto &x : t) x.join(); }
  sx_assert(most <= (int)cap, "no more threads than the capacity are inside at any time"); sx_assert(done_ == (int)n, "every thread gets its turn"); sx_assert(s->capacity() == cap, "the capacity is restored in the end");
  sx_obs(most, "most"); if (most == 2) sx_reach("two"); sx_reach("done");
}
// a waiter goes on only after a notification; none is lost
SX_HARNESS(q01_wakeup)
{
  Semaphore *s = new Semaphore(0); unsigned n = (unsigned)sx_pick("n", 1, 2);
  std::vector<std::thread> t; for (unsigned i = 0; i < n; ++i) t.push_back(std::thread([s] { s->wait(); ++waits; sx_assert(waits <= notifies, "a wait ends only after a notification of its own"); }));
  for (unsigned i = 0; i < n; ++i) { ++notifies; s->notify(); sx_yield(); }
  for (auto &x : t) x.join(); sx_assert(s->capacity() == 0, "every notification is used up by one wait"); sx_reach("done");
}
static int ran[16], dead[16], started, order[16], running, peak, exceptional;
struct Op : Operation {
  int id; int steps; bool fails;
  Op(int i, int n, bool f = false) : id(i), steps(n), fails(f) {}
  ~Op() override { ++dead[id]; }
  void execute() noexcept(false) override
  {
    ++running; if (running > peak) peak = running; ++ran[id]; order[started++] = id;
    for (int i = 0; i < steps && !isCancelled; ++i) { sx_yield(); if (isPaused) { queue->operationWait(); isPaused = false; } }
    --running;
    if (fails) throw pwned::OperationException("failed", 1);
  }
};
static void check(int n, int cores)
{
  for (int i = 0; i < n; ++i) { sx_assert(ran[i] == 1, "every operation is executed exactly once"); sx_assert(dead[i] == 1, "every operation is destroyed exactly once"); }
  sx_assert(peak <= cores, "no more operations than processors run at a time"); sx_assert(running == 0, "nothing is running when the wait ends");
}
SX_HARNESS(q02_once)
{
  int n = (int)sx_pick("ops", 1, sx_bound("ops", 2)), cores = (int)sx_bound("cores", 2); bool fails = sx_pick("fails", 0, 1);
  OperationQueue<Op> *q = new OperationQueue<Op>();
  for (int i = 0; i < n; ++i) { Op *o = new Op(i, 1, fails && i == 0); o->priority = sx_any<int64_t>("priority"); q->add(o); }
  sx_assert(q->size() == (size_t)n, "added operations are counted");
  q->execute(sx_pick("wait", 0, 1)); q->waitForFinished();
  check(n, cores); sx_assert(q->size() == 0, "the queue is empty in the end"); sx_assert(!q->isCancelled(), "the queue has not been cancelled"); sx_obs(peak, "peak"); if (peak > 1) sx_reach("parallel"); sx_reach("done");
}
// one processor: by descending priority
SX_HARNESS(q02_priority)
{
  int n = (int)sx_bound("ops", 3); OperationQueue<Op> *q = new OperationQueue<Op>(); int64_t pr[3];
  for (int i = 0; i < n; ++i) { Op *o = new Op(i, 0); o->priority = pr[i] = sx_any<int64_t>("priority"); q->add(o); }
  q->execute(true); q->waitForFinished(); check(n, 1);
  for (int i = 1; i < n; ++i) sx_assert(pr[order[i - 1]] >= pr[order[i]], "operations start by descending priority"); sx_reach("done");
}
// more operations than processors
SX_HARNESS(q02_many)
{
  const int n = (int)sx_bound("ops", 5); const unsigned fails = sx_pick("fails", 0, n); OperationQueue<Op> *q = new OperationQueue<Op>();
  for (int i = 0; i < n; ++i) { Op *o = new Op(i, 1, i + 1 == (int)fails); o->priority = i * 7 % 4; q->add(o); }
  q->execute(true); q->waitForFinished(); check(n, (int)sx_bound("cores", 2)); sx_assert(q->size() == 0, "the queue is empty in the end"); sx_obs(peak, "peak"); sx_reach("done");
}
// the queue can be used again
SX_HARNESS(q02_again)
{
  OperationQueue<Op> *q = new OperationQueue<Op>(); for (int i = 0; i < 2; ++i) { q->add(new Op(i, 0)); q->execute(true); q->waitForFinished(); }
  check(2, 1); sx_reach("done");
}
static void cancelled(int n) { for (int i = 0; i < n; ++i) { sx_assert(ran[i] <= 1, "no operation is executed twice"); sx_assert(dead[i] == 1, "every operation is destroyed exactly once, executed or not"); } sx_assert(running == 0, "nothing is running when the wait ends"); }
SX_HARNESS(q03_cancel)
{
  int n = (int)sx_pick("ops", 1, sx_bound("ops", 2)); OperationQueue<Op> *q = new OperationQueue<Op>(); for (int i = 0; i < n; ++i) { Op *o = new Op(i, 1); o->priority = sx_any<int64_t>("priority"); q->add(o); }
  std::thread k([q] { q->cancel(); });
  q->execute(true); q->waitForFinished(); k.join();
  cancelled(n); sx_assert(q->isCancelled(), "a cancelled queue says so after everything has finished"); sx_assert(q->size() == 0, "the queue is empty in the end"); sx_obs(ran, "ran"); sx_reach("done");
}
SX_HARNESS(q03_pause)
{
  OperationQueue<Op> *q = new OperationQueue<Op>(); q->add(new Op(0, 2));
  std::thread k([q] { q->pause(); sx_yield(); q->resume(); });
  q->execute(true); q->waitForFinished(); k.join(); q->resume();
  check(1, 2); sx_assert(!q->isCancelled(), "the queue has not been cancelled"); sx_reach("done");
}
SX_HARNESS(q03_pausecancel)
{
  OperationQueue<Op> *q = new OperationQueue<Op>(); q->add(new Op(0, 2)); bool resume = sx_pick("resume", 0, 1);
  std::thread k([q, resume] { q->pause(); sx_yield(); if (resume) q->resume(); q->cancel(); });
  q->execute(true); q->waitForFinished(); k.join(); cancelled(1); sx_assert(q->isCancelled(), "a cancelled queue says so after everything has finished"); sx_reach("done");
}
