#include "expr.hpp"

std::vector<VarInfo> g_vars;

namespace {
struct Key { Kind k; uint16_t w; E a, b, c; u128 v; };
inline size_t hmix(size_t h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
struct Tab {
  std::vector<E> slots; size_t n = 0;
  Tab() : slots(1 << 16, nullptr) {}
  static size_t hash(Kind k, unsigned w, E a, E b, E c, u128 v) {
    size_t h = k * 131 + w;
    h = hmix(h, a ? a->id + 1 : 0); h = hmix(h, b ? b->id + 1 : 0); h = hmix(h, c ? c->id + 1 : 0);
    h = hmix(h, (u64)v); h = hmix(h, (u64)(v >> 64));
    return h ^ (h >> 29);
  }
  E get(Kind k, unsigned w, E a, E b, E c, u128 v);
  void grow() {
    std::vector<E> o; o.swap(slots); slots.assign(o.size() * 2, nullptr);
    for (E e : o) if (e) {
      size_t i = hash(e->k, e->w, e->a, e->b, e->c, e->v) & (slots.size() - 1);
      while (slots[i]) i = (i + 1) & (slots.size() - 1);
      slots[i] = e;
    }
  }
} T;
uint32_t nextId = 1;
char *arena = nullptr; size_t arenaLeft = 0;
Expr *alloc() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 16384; arena = (char *)aligned_alloc(16, arenaLeft); }
  Expr *e = new (arena) Expr(); arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
bool isFpKind(Kind k) { return k >= K_FADD && k <= K_FRINT; }
E Tab::get(Kind k, unsigned w, E a, E b, E c, u128 v) {
  size_t i = hash(k, w, a, b, c, v) & (slots.size() - 1);
  while (slots[i]) {
    E e = slots[i];
    if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
    i = (i + 1) & (slots.size() - 1);
  }
  Expr *e = alloc();
  e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v; e->id = nextId++;
  e->fp = isFpKind(k) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  slots[i] = e;
  if (++n * 2 > slots.size()) grow();
  return e;
}
E raw(Kind k, unsigned w, E a, E b = nullptr, E c = nullptr, u128 v = 0) { return T.get(k, w, a, b, c, v); }

float bf(u64 v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
double bd(u64 v) { double f; memcpy(&f, &v, 8); return f; }
u64 fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
u64 db(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u128 evalOp(Kind k, unsigned w, E ea, E eb, u128 a, u128 b, u128 c, u128 v) {
  unsigned aw = ea ? ea->w : 0;
  u128 M = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & M;
  case K_SUB: return (a - b) & M;
  case K_MUL: return (a * b) & M;
  case K_UDIV: return b == 0 ? M : (a / b);
  case K_UREM: return b == 0 ? a : (a % b);
  case K_SDIV: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return (x < 0 ? 1 : M); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
  case K_SREM: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_NOT: return (~a) & M;
  case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case K_ASHR: { i128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
  case K_CONCAT: return (a << eb->w) | b;
  case K_EXTRACT: return (a >> (unsigned)v) & M;
  case K_ZEXT: return a;
  case K_SEXT: return (u128)sext128(a, aw) & M;
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_ULE: return a <= b;
  case K_SLT: return sext128(a, aw) < sext128(b, aw);
  case K_SLE: return sext128(a, aw) <= sext128(b, aw);
  case K_ITE: return a ? b : c;
#define FB(op) (w == 32 ? (u128)fb(bf((u64)a) op bf((u64)b)) : (u128)db(bd((u64)a) op bd((u64)b)))
  case K_FADD: return FB(+);
  case K_FSUB: return FB(-);
  case K_FMUL: return FB(*);
  case K_FDIV: return FB(/);
#define FC(op) (aw == 32 ? (bf((u64)a) op bf((u64)b)) : (bd((u64)a) op bd((u64)b)))
  case K_FOEQ: return FC(==);
  case K_FOLT: return FC(<);
  case K_FOLE: return FC(<=);
  case K_FUNO: return aw == 32 ? (std::isnan(bf((u64)a)) || std::isnan(bf((u64)b))) : (std::isnan(bd((u64)a)) || std::isnan(bd((u64)b)));
  case K_FEXT: return db((double)bf((u64)a));
  case K_FTRUNC: return fb((float)bd((u64)a));
  case K_FTOSI: { double x = aw == 32 ? (double)bf((u64)a) : bd((u64)a); if (!(x > -9.3e18 && x < 9.3e18)) return ((u128)1 << (w - 1)); return (u128)(i128)(i64)x & M; }
  case K_FTOUI: { double x = aw == 32 ? (double)bf((u64)a) : bd((u64)a); if (!(x > -1 && x < 1.85e19)) return ((u128)1 << (w - 1)); return (u128)(u64)x & M; }
  case K_SITOF: { i64 x = (i64)sext128(a, aw); return w == 32 ? (u128)fb((float)x) : (u128)db((double)x); }
  case K_UITOF: { u64 x = (u64)a; return w == 32 ? (u128)fb((float)x) : (u128)db((double)x); }
  case K_FRINT: {
    double x = w == 32 ? (double)bf((u64)a) : bd((u64)a); double r;
    switch ((int)v) { case 0: r = std::nearbyint(x); break; case 1: r = std::round(x); break; case 2: r = std::floor(x); break; case 3: r = std::ceil(x); break; default: r = std::trunc(x); }
    return w == 32 ? (u128)fb((float)r) : (u128)db(r);
  }
  default: fprintf(stderr, "evalOp kind %d\n", k); abort();
  }
}
} // namespace

size_t exprCount() { return T.n; }
E mkConst(u128 v, unsigned w) { return raw(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkTrue() { static E t = mkConst(1, 1); return t; }
E mkFalse() { static E t = mkConst(0, 1); return t; }
E mkVar(const std::string &name, unsigned w, bool input) {
  u64 id = g_vars.size();
  g_vars.push_back({name, w, input});
  return raw(K_VAR, w, nullptr, nullptr, nullptr, id);
}

E mkNot(E a) {
  if (isC(a)) return mkConst(~a->v, a->w);
  if (a->k == K_NOT) return a->a;
  if (a->w == 1) {
    if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
    if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
    if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
    if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
  }
  return raw(K_NOT, a->w, a);
}

static bool lowMask(u128 v, unsigned &n) {
  if (v == 0) return false;
  u128 x = v + 1;
  if ((v & x) != 0) return false;
  n = 0; while (v & 1) { ++n; v >>= 1; }
  return true;
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if (isC(a)) return mkConst(a->v >> off, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, off + (unsigned)a->v, w);
  case K_CONCAT: {
    unsigned lw = a->b->w;
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    if (off + w <= lw) return mkExtract(a->b, off, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
  }
  case K_ZEXT: {
    unsigned lw = a->a->w;
    if (off >= lw) return mkConst(0, w);
    if (off + w <= lw) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, lw - off), w);
  }
  case K_SEXT: {
    unsigned lw = a->a->w;
    if (off + w <= lw) return mkExtract(a->a, off, w);
    if (off < lw) return mkSExt(mkExtract(a->a, off, lw - off), w);
    return mkSExt(mkExtract(a->a, lw - 1, 1), w);
  }
  case K_AND: case K_OR: case K_XOR: return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case K_NOT: return mkNot(mkExtract(a->a, off, w));
  case K_ITE: if (isC(a->b) || isC(a->c) || w == 8) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return raw(K_EXTRACT, w, a, nullptr, nullptr, off);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w)
    return mkExtract(hi->a, (unsigned)lo->v, w);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
  if (lo->k == K_CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w), lo->b);
  // (a ++ b) ++ c  ->  a ++ (b ++ c)
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // ite(c,a1,b1) ++ ite(c,a2,b2)
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  return raw(K_CONCAT, w, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(K_ZEXT, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sext128(a->v, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(K_SEXT, w, a);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(K_OR, c, b);
    if (isFalse(a)) return mkBin(K_AND, mkNot(c), b);
    if (isTrue(b)) return mkBin(K_OR, mkNot(c), a);
    if (isFalse(b)) return mkBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == K_ITE && b->b == a) return mkIte(mkBin(K_OR, c, b->a), a, b->c);
  return raw(K_ITE, a->w, c, a, b);
}

const std::vector<u64> &depsOf(E e);
static bool isComm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

// A value computed through floating point from a single variable of at most 8 bits is replaced by the equal
// piecewise constant function (evaluated on the whole domain), which spares the solver the rounding circuits.
static E tabTree(E x, const std::vector<std::pair<u64, u128>> &p, size_t l, size_t r, unsigned w) {
  if (r - l == 1) return mkConst(p[l].second, w);
  size_t m = (l + r) / 2; E a = tabTree(x, p, l, m, w), b = tabTree(x, p, m, r, w);
  return mkIte(mkBin(K_ULT, x, mkConst(p[m].first, x->w)), a, b);
}
static E tabulate(E e) {
  if (isC(e)) return e;
  const auto &d = depsOf(e); u64 id = 0; int n = 0;
  for (size_t i = 0; i < d.size() && n < 2; ++i) if (d[i]) { n += __builtin_popcountll(d[i]); id = i * 64 + (u64)__builtin_ctzll(d[i]); }
  if (n != 1 || g_vars[id].w > 8) return e;
  unsigned w = g_vars[id].w; E x = raw(K_VAR, w, nullptr, nullptr, nullptr, id); Model m(id + 1, 0);
  std::vector<std::pair<u64, u128>> p;
  for (u64 v = 0; v < (1ull << w); ++v) { m[id] = v; u128 y = evalExpr(e, m); if (p.empty() || p.back().second != y) p.push_back({v, y}); }
  E t = tabTree(x, p, 0, p.size(), e->w); if (!isC(t) && t->k != K_VAR && t->w > 1) t->tab = true;
  return t;
}
static E mkBin0(Kind k, E a, E b);
E mkBin(Kind k, E a, E b) {
  E r = mkBin0(k, a, b);
  return (a->tab || b->tab) && !r->tab ? tabulate(r) : r;
}

static E mkBin0(Kind k, E a, E b) {
  unsigned w = a->w;
  bool cmp = k >= K_EQ && k <= K_SLE;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(evalOp(k, cmp ? 1 : w, a, b, a->v, b->v, 0, 0), cmp ? 1 : w);
  if (isComm(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u128 M = maskw(w);
  switch (k) {
  case K_ADD:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->v + b->v, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->c, b));
    } else {
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
    }
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K_ADD, a, mkConst(-b->v, w));
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(-b->b->v, w));
    break;
  case K_MUL:
    if (isC(b)) {
      if (b->v == 0) return b;
      if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) { unsigned n = 0; u128 t = b->v; while (!(t & 1)) { t >>= 1; ++n; } return mkBin(K_SHL, a, mkConst(n, w)); }
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_MUL, a->a, b), mkConst(a->b->v * b->v, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    break;
  case K_UDIV: if (isC(b) && b->v == 1) return a;
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned n = 0; u128 t = b->v; while (!(t & 1)) { t >>= 1; ++n; } return mkBin(K_LSHR, a, mkConst(n, w)); }
    break;
  case K_UREM:
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_AND, a, mkConst(b->v - 1, w));
    break;
  case K_SDIV: if (isC(b) && b->v == 1) return a; break;
  case K_AND: {
    if (a == b) return a;
    if (isC(b)) {
      if (b->v == 0) return b;
      if (b->v == M) return a;
      unsigned n;
      if (w > 1 && lowMask(b->v, n)) return mkZExt(mkExtract(a, 0, n), w);
      if (w > 1) { // contiguous mask not starting at bit 0
        unsigned s = 0; u128 t = b->v; while (!(t & 1)) { t >>= 1; ++s; }
        if (lowMask(t, n)) return mkZExt(mkConcat(mkExtract(a, s, n), mkConst(0, s)), w);
      }
      if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->v & b->v, w));
      if (a->k == K_ZEXT) return mkZExt(mkBin(K_AND, a->a, mkConst(b->v & maskw(a->a->w), a->a->w)), w);
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    if (mkNot(a) == b) return mkConst(0, w);
    if (b->k == K_AND && (b->a == a || b->b == a)) return b;
    if (a->k == K_AND && (a->a == b || a->b == b)) return a;
    break;
  }
  case K_OR: {
    if (a == b) return a;
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v == M) return b;
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    if (mkNot(a) == b) return mkConst(M, w);
    if (b->k == K_OR && (b->a == a || b->b == a)) return b;
    if (a->k == K_OR && (a->a == b || a->b == b)) return a;
    // disjoint pieces -> concat
    if (w > 1) {
      auto hiOver = [&](E x, E y) -> E { // x = concat(h, 0:n), y = zext(l) with l->w <= n
        E h = x; unsigned zw = 0;
        if (x->k == K_ZEXT) h = x->a;
        if (h->k != K_CONCAT) return nullptr;
        // the low part must be zero
        E lo = h->b, hh = h->a;
        while (lo->k == K_CONCAT) { hh = mkConcat(hh, lo->a); lo = lo->b; }
        if (!isC(lo) || lo->v != 0) return nullptr;
        zw = lo->w;
        if (y->k != K_ZEXT || y->a->w > zw) return nullptr;
        return mkZExt(mkConcat(hh, mkZExt(y->a, zw)), w);
      };
      if (E r = hiOver(a, b)) return r;
      if (E r = hiOver(b, a)) return r;
    }
    break;
  }
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v == M) return mkNot(a);
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->v ^ b->v, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    break;
  case K_SHL:
    if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w); unsigned n = (unsigned)b->v; return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n)); }
    if (isC(a) && a->v == 0) return a;
    break;
  case K_LSHR:
    if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w); unsigned n = (unsigned)b->v; return mkZExt(mkExtract(a, n, w - n), w); }
    if (isC(a) && a->v == 0) return a;
    break;
  case K_ASHR:
    if (isC(b)) { if (b->v == 0) return a; unsigned n = b->v >= w ? w - 1 : (unsigned)b->v; return mkSExt(mkExtract(a, n, w - n), w); }
    break;
  case K_EQ:
    if (a == b) return mkTrue();
    if (w == 1) {
      if (isC(b)) return b->v ? a : mkNot(a);
    }
    if (isC(b)) {
      if (a->k == K_ZEXT) { if (b->v >> a->a->w) return mkFalse(); return mkBin(K_EQ, a->a, mkConst(b->v, a->a->w)); }
      if (a->k == K_SEXT) { E t = mkConst(b->v, a->a->w); if (mkSExt(t, w) != b) return mkFalse(); return mkBin(K_EQ, a->a, t); }
      if (a->k == K_CONCAT) return mkBin(K_AND, mkBin(K_EQ, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkConst(b->v, a->b->w)));
      if (a->k == K_ITE) {
        if (isC(a->b) && isC(a->c)) { bool x = a->b == b, y = a->c == b; return x ? (y ? mkTrue() : a->a) : (y ? mkNot(a->a) : mkFalse()); }
        if (isC(a->b)) return a->b == b ? mkBin(K_OR, a->a, mkBin(K_EQ, a->c, b)) : mkBin(K_AND, mkNot(a->a), mkBin(K_EQ, a->c, b));
        if (isC(a->c)) return a->c == b ? mkBin(K_OR, mkNot(a->a), mkBin(K_EQ, a->b, b)) : mkBin(K_AND, a->a, mkBin(K_EQ, a->b, b));
      }
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v - a->b->v, w));
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v ^ a->b->v, w));
      if (a->k == K_NOT) return mkBin(K_EQ, a->a, mkConst(~b->v, w));
      if (b->v == 0 && (a->k == K_SUB || a->k == K_XOR)) return mkBin(K_EQ, a->a, a->b);
      if (b->v == 0 && a->k == K_OR) return mkBin(K_AND, mkBin(K_EQ, a->a, b), mkBin(K_EQ, a->b, b));
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
    }
    break;
  case K_ULT:
    if (a == b) return mkFalse();
    if (isC(b)) {
      if (b->v == 0) return mkFalse();
      if (b->v == 1) return mkBin(K_EQ, a, mkConst(0, w));
      if (a->k == K_ZEXT) { if (b->v >> a->a->w) return mkTrue(); return mkBin(K_ULT, a->a, mkConst(b->v, a->a->w)); }
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    if (isC(a)) {
      if (a->v == M) return mkFalse();
      if (a->v == 0) return mkNot(mkBin(K_EQ, b, a));
      if (b->k == K_ZEXT) { if (a->v >> b->a->w) return mkFalse(); return mkBin(K_ULT, mkConst(a->v, b->a->w), b->a); }
      if (b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
    break;
  case K_ULE:
    if (a == b) return mkTrue();
    if (isC(b)) {
      if (b->v == M) return mkTrue();
      if (b->v == 0) return mkBin(K_EQ, a, b);
      return mkBin(K_ULT, a, mkConst(b->v + 1, w));
    }
    if (isC(a)) {
      if (a->v == 0) return mkTrue();
      return mkBin(K_ULT, mkConst(a->v - 1, w), b);
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
    break;
  case K_SLT: case K_SLE: {
    if (a == b) return k == K_SLE ? mkTrue() : mkFalse();
    bool az = a->k == K_ZEXT || (isC(a) && !((a->v >> (w - 1)) & 1));
    bool bz = b->k == K_ZEXT || (isC(b) && !((b->v >> (w - 1)) & 1));
    bool an = isC(a) && ((a->v >> (w - 1)) & 1), bn = isC(b) && ((b->v >> (w - 1)) & 1);
    if (az && bz) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (az && bn) return mkFalse();
    if (an && bz) return mkTrue();
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    if (a->k == K_SEXT && isC(b)) { E t = mkConst(b->v, a->a->w); if (mkSExt(t, w) == b) return mkBin(k, a->a, t); return bn ? mkFalse() : mkTrue(); }
    if (b->k == K_SEXT && isC(a)) { E t = mkConst(a->v, b->a->w); if (mkSExt(t, w) == a) return mkBin(k, t, b->a); return an ? mkTrue() : mkFalse(); }
    if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    break;
  }
  default: break;
  }
  return raw(k, cmp ? 1 : w, a, b);
}

E mkFp(Kind k, E a, E b, unsigned w) {
  // rounding mode of K_FRINT is passed through b as a constant
  if (k == K_FRINT) {
    u128 rm = b->v;
    if (isC(a)) return mkConst(evalOp(k, w, a, nullptr, a->v, 0, 0, rm), w);
    return raw(k, w, a, nullptr, nullptr, rm);
  }
  if (k == K_FDIV && isC(b)) { // dividing by a power of two is multiplying by its (exact) reciprocal
    int ex; double d = w == 32 ? (double)bf((u64)b->v) : bd((u64)b->v);
    if (d > 0 && std::isnormal(d) && std::frexp(d, &ex) == 0.5 && ex > -100 && ex < 100) return mkFp(K_FMUL, a, mkConst(w == 32 ? (u128)fb((float)(1 / d)) : (u128)db(1 / d), w), w);
  }
  if (isC(a) && (!b || isC(b))) return mkConst(evalOp(k, w, a, b, a->v, b ? b->v : 0, 0, 0), w);
  E r = raw(k, w, a, b);
  return k == K_FTOSI || k == K_FTOUI || (k >= K_FOEQ && k <= K_FUNO) ? tabulate(r) : r;
}

unsigned knownZeros(E e);
static unsigned knownZeros0(E e) {
  switch (e->k) {
  case K_CONST: { if (e->v == 0) return e->w; unsigned n = 0; u128 t = e->v; while (!(t & 1)) { t >>= 1; ++n; } return n; }
  case K_CONCAT: { unsigned n = knownZeros(e->b); return n < e->b->w ? n : n + knownZeros(e->a); }
  case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(knownZeros(e->a), knownZeros(e->b));
  case K_MUL: { unsigned n = knownZeros(e->a) + knownZeros(e->b); return n > e->w ? e->w : n; }
  case K_AND: return std::max(knownZeros(e->a), knownZeros(e->b));
  case K_ITE: return std::min(knownZeros(e->b), knownZeros(e->c));
  case K_ZEXT: case K_SEXT: { unsigned n = knownZeros(e->a); return n == e->a->w ? e->w : n; }
  default: return 0;
  }
}

unsigned knownZeros(E e) { if (e->kz == 255) { unsigned n = knownZeros0(e); if (n > 254) n = 254; e->kz = (uint8_t)n; } return e->kz; }

// ---- evaluation ----
static std::vector<u128> evv; static std::vector<uint32_t> evs; static uint32_t epoch = 1;
void evalNewEpoch() { ++epoch; }
u128 evalRaw(E e, const Model &m) {
  if (e->k == K_CONST) return e->v;
  if (e->k == K_VAR) { u64 id = (u64)e->v; return id < m.size() ? (m[id] & mask64(e->w)) : 0; }
  if (evs.size() <= e->id) { evs.resize(nextId + 65536, 0); evv.resize(nextId + 65536); }
  if (evs[e->id] == epoch) return evv[e->id];
  u128 r;
  if (e->k == K_ITE) { r = evalRaw(e->a, m) ? evalRaw(e->b, m) : evalRaw(e->c, m); }
  else {
    u128 a = e->a ? evalRaw(e->a, m) : 0, b = e->b ? evalRaw(e->b, m) : 0;
    r = evalOp(e->k, e->w, e->a, e->b, a, b, 0, e->v);
  }
  evs[e->id] = epoch; evv[e->id] = r;
  return r;
}
u128 evalExpr(E e, const Model &m) {
  if (e->k == K_CONST) return e->v;
  evalNewEpoch();
  return evalRaw(e, m);
}

// ---- dependencies ----
static const std::vector<u64> emptyDeps;
const std::vector<u64> &depsOf(E e) {
  if (e->deps) return *e->deps;
  Expr *x = const_cast<Expr *>(e);
  if (e->k == K_CONST) { x->deps = &emptyDeps; return emptyDeps; }
  if (e->k == K_VAR) { auto *v = new std::vector<u64>((size_t)e->v / 64 + 1, 0); (*v)[(size_t)e->v / 64] |= 1ull << ((u64)e->v % 64); x->deps = v; return *v; }
  const std::vector<u64> *ds[3] = {nullptr, nullptr, nullptr}; int n = 0;
  for (E c : {e->a, e->b, e->c}) if (c) { const auto &d = depsOf(c); if (!d.empty()) ds[n++] = &d; }
  if (n == 0) { x->deps = &emptyDeps; return emptyDeps; }
  auto subset = [](const std::vector<u64> &s, const std::vector<u64> &l) { if (s.size() > l.size()) return false; for (size_t i = 0; i < s.size(); ++i) if (s[i] & ~l[i]) return false; return true; };
  int big = 0; for (int i = 1; i < n; ++i) if (ds[i]->size() > ds[big]->size()) big = i;
  bool all = true; for (int i = 0; i < n; ++i) if (!subset(*ds[i], *ds[big])) all = false;
  if (!all) for (int j = 0; j < n && !all; ++j) { all = true; for (int i = 0; i < n; ++i) if (!subset(*ds[i], *ds[j])) all = false; if (all) big = j; }
  if (all) { x->deps = ds[big]; return *x->deps; }
  auto *v = new std::vector<u64>(*ds[big]);
  for (int i = 0; i < n; ++i) for (size_t j = 0; j < ds[i]->size(); ++j) (*v)[j] |= (*ds[i])[j];
  x->deps = v;
  return *v;
}

static const char *kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fext","ftrunc","ftosi","ftoui","sitof","uitof","frint","agg"};
std::string exprStr(E e, int d) {
  char buf[64];
  if (e->k == K_CONST) { snprintf(buf, 64, "%llu:%u", (unsigned long long)e->v, e->w); return buf; }
  if (e->k == K_VAR) return g_vars[(size_t)e->v].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + kn[e->k];
  if (e->k == K_EXTRACT) { snprintf(buf, 64, "[%u+%u]", (unsigned)e->v, e->w); s += buf; }
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
