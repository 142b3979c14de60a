// C05 counts of any width: a count type that advances by 2^31 at a time stands for that many passwords
#include <sx.h>
#include <fstream>
#include <sstream>
#include <cstring>
#include <pwned-lib/markovnode.hpp>
#include <pwned-lib/markovchain.hpp>
static const uint64_t STEP = 1ull << 31;
struct Count {
  uint64_t v; Count(uint64_t x = 0) : v(x) {} operator uint64_t() const { return v; }
  Count &operator++() { v += STEP; return *this; } Count operator++(int) { Count o = *this; v += STEP; return o; }
  Count &operator+=(uint64_t x) { v += x == 1 ? STEP : x; return *this; } Count &operator+=(const Count &x) { v += x.v; return *this; }
};
inline Count operator+(const Count &a, const Count &b) { return Count(a.v + b.v); }
SX_HARNESS(c05_many) {
  pwned::markov::Chain<wchar_t, double, Count> c; const unsigned n = sx_pick("words", 1, 4); unsigned a = 0;
  for (unsigned i = 0; i < n; ++i) { const bool x = sx_pick("letter", 0, 1); a += x; c.train(x ? "a" : "b"); }
  c.update(); double pa = c.totalProbability(L"a"), e = (double)a / n, d = pa - e;
  sx_assert((d < 1e-9) & (d > -1e-9), "relative frequencies are right for any number of passwords"); sx_obs(pa, "p"); sx_reach("done");
}
SX_HARNESS(c05_node) {
  pwned::markov::Node<wchar_t, double, Count> c; const unsigned n = sx_pick("words", 1, 4); unsigned a = 0;
  for (unsigned i = 0; i < n; ++i) { const bool x = sx_pick("letter", 0, 1); a += x; c.increment(x ? L'a' : L'b'); }
  c.update(); double pa = c.probability(L'a'), e = (double)a / n, d = pa - e;
  sx_assert((d < 1e-9) & (d > -1e-9), "relative frequencies of successors are right for any number of passwords"); sx_obs(pa, "p"); sx_reach("done");
}
