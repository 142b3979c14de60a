#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <unistd.h>
SolverStats g_ss;
unsigned g_rlimit = 0;
std::string g_dumpDir;

static Z3_context ctx = nullptr;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static std::unordered_map<E, Z3_ast> mBV, mB, mF;
static std::vector<Z3_ast> varAst;
static u64 lowered = 0;
static void initCtx() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // non-rc: every AST lives until the context is replaced
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
}
static Z3_ast keep(Z3_ast a) { return a; }
static void resetCtx() {
  mBV.clear(); mB.clear(); mF.clear(); varAst.clear(); lowered = 0;
  if (ctx) Z3_del_context(ctx);
  initCtx();
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast toBV(E e);
static Z3_ast toB(E e);
static Z3_ast toF(E e);
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast toF(E e) {
  auto it = mF.find(e); if (it != mF.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
  case K_FADD: r = Z3_mk_fpa_add(ctx, rne(), toF(e->a), toF(e->b)); break;
  case K_FSUB: r = Z3_mk_fpa_sub(ctx, rne(), toF(e->a), toF(e->b)); break;
  case K_FMUL: r = Z3_mk_fpa_mul(ctx, rne(), toF(e->a), toF(e->b)); break;
  case K_FDIV: r = Z3_mk_fpa_div(ctx, rne(), toF(e->a), toF(e->b)); break;
  case K_FEXT: case K_FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne(), toF(e->a), fsort(e->w)); break;
  case K_SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), toBV(e->a), fsort(e->w)); break;
  case K_UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBV(e->a), fsort(e->w)); break;
  case K_FRINT: {
    Z3_ast rm; switch ((int)e->v) { case 0: rm = Z3_mk_fpa_rne(ctx); break; case 1: rm = Z3_mk_fpa_rna(ctx); break; case 2: rm = Z3_mk_fpa_rtn(ctx); break; case 3: rm = Z3_mk_fpa_rtp(ctx); break; default: rm = Z3_mk_fpa_rtz(ctx); }
    r = Z3_mk_fpa_round_to_integral(ctx, rm, toF(e->a)); break; }
  case K_ITE: r = Z3_mk_ite(ctx, toB(e->a), toF(e->b), toF(e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fsort(e->w)); break;
  }
  mF[e] = keep(r); ++lowered; return r;
}
static Z3_ast toB(E e) {
  auto it = mB.find(e); if (it != mB.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
  case K_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_AND: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case K_XOR: r = Z3_mk_xor(ctx, toB(e->a), toB(e->b)); break;
  case K_NOT: r = Z3_mk_not(ctx, toB(e->a)); break;
  case K_ITE: r = Z3_mk_ite(ctx, toB(e->a), toB(e->b), toB(e->c)); break;
  case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, toB(e->a), toB(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
  case K_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
  case K_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
  case K_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
  case K_FOEQ: r = Z3_mk_fpa_eq(ctx, toF(e->a), toF(e->b)); break;
  case K_FOLT: r = Z3_mk_fpa_lt(ctx, toF(e->a), toF(e->b)); break;
  case K_FOLE: r = Z3_mk_fpa_leq(ctx, toF(e->a), toF(e->b)); break;
  case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toF(e->a)), Z3_mk_fpa_is_nan(ctx, toF(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
  default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1))); break;
  }
  mB[e] = keep(r); ++lowered; return r;
}
static Z3_ast toBV(E e) {
  auto it = mBV.find(e); if (it != mBV.end()) return it->second;
  Z3_ast r;
  bool boolKind = (e->k >= K_EQ && e->k <= K_SLE) || (e->k >= K_FOEQ && e->k <= K_FUNO) || (e->w == 1 && (e->k == K_AND || e->k == K_OR || e->k == K_XOR || e->k == K_NOT || e->k == K_ITE));
  if (boolKind) r = Z3_mk_ite(ctx, toB(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
  else switch (e->k) {
  case K_CONST:
    if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->v, bvs(e->w));
    else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->v >> 64), bvs(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->v, bvs(64)));
    break;
  case K_VAR: { u64 id = (u64)e->v; if (varAst.size() <= id) varAst.resize(id + 64, nullptr);
    if (!varAst[id]) { char n[32]; snprintf(n, 32, "v%llu", (unsigned long long)id); varAst[id] = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bvs(e->w))); }
    r = varAst[id]; break; }
  case K_ADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
  case K_AND: r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
  case K_OR: r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
  case K_XOR: r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
  case K_NOT: r = Z3_mk_bvnot(ctx, toBV(e->a)); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, toBV(e->a)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
  case K_ITE: r = Z3_mk_ite(ctx, toB(e->a), toBV(e->b), toBV(e->c)); break;
  case K_FTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toF(e->a), e->w); break;
  case K_FTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toF(e->a), e->w); break;
  default: r = Z3_mk_fpa_to_ieee_bv(ctx, toF(e)); break;
  }
  mBV[e] = keep(r); ++lowered; return r;
}

struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (uint32_t x : v) h = (h ^ x) * 0x100000001b3ull + (h >> 31); return h; } };
struct Cached { Res r; std::vector<std::pair<uint32_t, u64>> vals; };
static std::unordered_map<std::vector<uint32_t>, Cached, VecHash> cache;

static inline bool inter(const std::vector<u64> &a, const std::vector<u64> &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true;
  return false;
}

std::string toSmt2(const std::vector<E> &cs) {
  if (!ctx) initCtx();
  Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
  for (E e : cs) Z3_solver_assert(ctx, s, toB(e));
  std::string r = Z3_solver_to_string(ctx, s);
  Z3_solver_dec_ref(ctx, s);
  return r;
}

Res checkSat(const std::vector<E> &pc, E cond, const Model &base, Model &out) {
  if (isFalse(cond)) return Res::Unsat;
  if (!ctx) initCtx();
  // slice
  std::vector<u64> need = depsOf(cond);
  std::vector<E> cs; cs.push_back(cond);
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = pc.size(); i-- > 0;) if (!used[i]) {
      const auto &d = depsOf(pc[i]);
      if (inter(d, need)) {
        used[i] = 1; cs.push_back(pc[i]);
        if (d.size() > need.size()) need.resize(d.size(), 0);
        for (size_t j = 0; j < d.size(); ++j) if (d[j] & ~need[j]) { need[j] |= d[j]; ch = true; }
      }
    }
  }
  std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    ++g_ss.cacheHits;
    if (it->second.r == Res::Sat) { out = base; for (auto &p : it->second.vals) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; } }
    return it->second.r;
  }
  if (lowered > 1000000) resetCtx();
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (E e : cs) fp |= e->fp;
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  if (g_rlimit) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), g_rlimit);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  for (E e : cs) Z3_solver_assert(ctx, s, toB(e));
  Z3_lbool r = Z3_solver_check(ctx, s);
  Cached c;
  ++g_ss.queries;
  if (r == Z3_L_TRUE) {
    c.r = Res::Sat; ++g_ss.sat;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (size_t i = 0; i < need.size(); ++i) for (u64 b = need[i]; b; b &= b - 1) {
      unsigned id = (unsigned)(i * 64 + __builtin_ctzll(b));
      u64 v = 0;
      if (id < varAst.size() && varAst[id]) {
        Z3_ast val = nullptr;
        if (Z3_model_eval(ctx, m, varAst[id], true, &val)) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, val, &x); v = x; }
      }
      c.vals.push_back({id, v});
    }
    Z3_model_dec_ref(ctx, m);
  } else if (r == Z3_L_FALSE) { c.r = Res::Unsat; ++g_ss.unsat; }
  else { c.r = Res::Unknown; ++g_ss.unknown; }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (!g_dumpDir.empty() && (g_ss.queries % 50 == 1)) {
    static int n = 0; char fn[512]; snprintf(fn, 512, "%s/q%d_%d_%s.smt2", g_dumpDir.c_str(), (int)getpid(), n++, r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unk");
    if (FILE *f = fopen(fn, "w")) { std::string t = Z3_solver_to_string(ctx, s); fprintf(f, "(set-logic %s)\n%s(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", t.c_str()); fclose(f); }
  }
  Z3_solver_dec_ref(ctx, s);
  if (c.r == Res::Sat) {
    out = base; for (auto &p : c.vals) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; }
    // guard against lowering errors: the model must satisfy what was asked
    evalNewEpoch();
    for (E e : cs) if (!evalRaw(e, out)) { fprintf(stderr, "solver model does not satisfy constraint %s\n", exprStr(e, 8).c_str()); c.r = Res::Unknown; ++g_ss.unknown; break; }
  }
  if (cache.size() > 400000) cache.clear();
  cache.emplace(std::move(key), c);
  return c.r;
}
