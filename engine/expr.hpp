// Symbolic expressions: hash-consed bit-vector DAG with local simplification,
// concrete evaluation under a model, and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <algorithm>
#include <functional>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE,
  // floating point; operands and results are IEEE bit patterns (32 or 64 bits)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
  K_FEXT, K_FTRUNC, K_FTOSI, K_FTOUI, K_SITOF, K_UITOF, K_FRINT,
  K_AGG // aggregate value (never hash-consed)
};

struct Expr {
  Kind k;
  bool fp = false;      // a floating point node occurs below
  mutable bool tab = false; // piecewise constant, from tabulate()
  mutable uint8_t kz = 255; // cache of knownZeros
  uint16_t w;
  uint32_t id = 0;
  const Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 v = 0; // constant / var id / extract offset / rounding mode
  const std::vector<u64> *deps = nullptr; // bitset of variables
};
typedef const Expr *E;

struct Val {
  u64 c = 0;
  E e = nullptr; // when set: symbolic, wide constant or aggregate
  Val() {}
  Val(unsigned long x) : c(x) {}
  Val(unsigned long long x) : c(x) {}
  Val(E x) : c(0), e(x) {}
  bool conc() const { return e == nullptr; }
};

struct AggExpr : Expr {
  std::vector<Val> el;
  std::vector<unsigned> ew; // element widths (0: nested aggregate)
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned w; bool input; };
extern std::vector<VarInfo> g_vars;

// model: value per variable id (missing: 0)
typedef std::vector<u64> Model;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool input);
E mkBin(Kind k, E a, E b);
E mkNot(E a);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFp(Kind k, E a, E b, unsigned w);       // generic fp node
E mkTrue(); E mkFalse();
inline bool isC(E e) { return e->k == K_CONST; }
inline bool isTrue(E e) { return e->k == K_CONST && e->v == 1 && e->w == 1; }
inline bool isFalse(E e) { return e->k == K_CONST && e->v == 0 && e->w == 1; }
unsigned knownZeros(E e); // number of low bits known to be zero
u128 evalExpr(E e, const Model &m);
void evalNewEpoch();      // call before evaluating under a different model
u128 evalRaw(E e, const Model &m); // evaluate within the current epoch
const std::vector<u64> &depsOf(E e);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
