// Symbolic executor for LLVM IR.  Usage: sxe [options] module.bc   (see main() at the end)
#include "state.hpp"
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <atomic>
#include <set>
#include <deque>
#include <random>
using namespace llvm;
typedef std::string Str;

// ------------------------------------------------------------------ options / shared
static double o_time = 600; static int o_workers = 8; static u64 o_maxIns = 40000000; static Str o_out = "."; static u64 o_seed = 1;
static int o_preempt = 2; static int o_maxErr = 3; static double o_grace = 30; static int o_samples = 4; static bool o_trace = false; static u64 o_maxPaths = 0; static double o_memGB = 26;
static Str o_entry = "sx_main"; static bool o_merge = true;
struct Shared { std::atomic<int> active; std::atomic<int> nworker; std::atomic<int> errs; std::atomic<double> stopAt; std::atomic<u64> paths; std::atomic<u32> errHash[256]; std::atomic<int> errCount[256]; };
static Shared *sh;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t_start;

struct PathEnd { int kind; Str msg; };
enum { PE_OK, PE_INFEAS, PE_ERR, PE_UNSUP, PE_LIMIT, PE_SWITCH };
[[noreturn]] static void err(const Str &m) { throw PathEnd{PE_ERR, m}; }
[[noreturn]] static void unsup(const Str &m) { throw PathEnd{PE_UNSUP, m}; }

// ------------------------------------------------------------------ compiled code
struct Opnd { int slot = -1; Val c; };
struct Edge { int target = -1; std::vector<std::pair<int, Opnd>> moves; };
struct LeafTy { unsigned w; u64 off; unsigned bytes; };
enum Op : uint16_t { I_BIN, I_FBIN, I_ICMP, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_NOP, I_FPCAST, I_FTOI, I_ITOF, I_FNEG, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_CALL, I_INVOKE, I_RET, I_UNREACH, I_SELECT, I_COPYLEAF, I_INSERTVAL, I_LPAD, I_RESUME, I_RMW, I_CMPXCHG, I_FENCE, I_UNSUP, I_IBR };
struct Ins;
struct BCtx { std::vector<Val> *a; Ins *I; Val ret; bool jump = false; };
typedef void (*BFn)(BCtx &);
struct Ins {
  uint16_t op = I_UNSUP, w = 0, w2 = 0, sub = 0; int dst = -1, n = 0;
  std::vector<Opnd> ops; const Instruction *I = nullptr; std::vector<Edge> edges; std::vector<u64> cases;
  u64 imm = 0; std::vector<std::pair<i64, unsigned>> scales; std::vector<LeafTy> leaves;
  Function *cal = nullptr; BFn bi = nullptr; Intrinsic::ID iid = 0; std::vector<std::pair<int, u64>> byval; // (flattened arg position, size)
  const LandingPadInst *lp = nullptr; std::vector<std::pair<int,int>> argw;
};
struct CFunc { Function *F; Str name; Str dem; std::vector<Ins> code; std::vector<int> bb; int nregs = 0, nparams = 0; bool compiled = false; bool used = false; u64 count = 0; std::set<u64> bbSeen; };

static LLVMContext *C; static Module *M; static const DataLayout *DL;
static std::map<const GlobalValue *, u64> gaddr;
static std::vector<CFunc *> funcById; // object id -> function
static std::map<Str, u64> gname;
static std::map<const Function *, CFunc *> cfuncs;
static std::map<Str, BFn> builtins;

static State *S; static Frame *F;
static std::vector<State *> pending;

static Frame *top() { auto &p = S->th[S->cur].st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return p.get(); }

static inline Val fromE(E e) { return e->k == K_CONST && e->w <= 64 ? Val((u64)e->v) : Val(e); }
static inline E toE(const Val &v, unsigned w) { if (v.e) { if (v.e->w != w) { fprintf(stderr, "toE width %u != %u: %s\n", v.e->w, w, exprStr(v.e).c_str()); abort(); } return v.e; } return mkConst(v.c, w); }
static inline bool isConstV(const Val &v) { return !v.e || v.e->k == K_CONST; }
static inline u64 evalV(const Val &v) { return v.e ? (u64)evalExpr(v.e, S->model) : v.c; }

// ------------------------------------------------------------------ types
static unsigned tyW(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}
static void flat(Type *T, u64 off, std::vector<LeafTy> &out) {
  if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) flat(ST->getElementType(i), off + (u64)L->getElementOffset(i), out); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); ++i) flat(AT->getElementType(), off + i * es, out); return; }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); ++i) flat(VT->getElementType(), off + i * es, out); return; }
  if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return;
  out.push_back({tyW(T), off, (unsigned)DL->getTypeStoreSize(T)});
}
static unsigned nLeaves(Type *T) { std::vector<LeafTy> l; flat(T, 0, l); return l.size(); }

// ------------------------------------------------------------------ memory
static u64 newObj(State *s, u64 size, uint8_t kind, const char *name, bool uninit, u64 id = 0) {
  if (!id) { if (kind == O_STACK && !s->freeStack.empty()) { id = s->freeStack.back(); s->freeStack.pop_back(); } else id = s->nextObj++; }
  Obj *o = s->mem.mut(id);
  if (o->buf && --o->buf->rc == 0) delete o->buf;
  o->buf = new Buf(size, uninit); o->size = size; o->kind = kind; o->freed = false; o->ro = false; o->name = name; o->akind = 0;
  return id;
}
static void freeObj(State *s, u64 id) {
  Obj *o = s->mem.mut(id);
  if (o->buf && --o->buf->rc == 0) delete o->buf;
  o->buf = nullptr; o->freed = true;
  if (o->kind == O_STACK) s->freeStack.push_back((uint32_t)id);
}
static Str stackTrace() {
  Str r; auto &st = S->th[S->cur].st;
  int k = 0;
  for (size_t i = st.size(); i-- > 0 && k < 14; ++k) { Str n = st[i]->fn->dem; if (n.size() > 140) n = n.substr(0, 140) + "..."; r += (k ? " <- " : "") + n; }
  return r;
}
static const Obj *chk(u64 addr, u64 n, bool write, const char *what) {
  u64 id = addr >> 32, off = addr & 0xffffffffu;
  char b[160];
  if (id == 0) { snprintf(b, 160, "null/invalid pointer %s at %llx", what, (unsigned long long)addr); err(b); }
  const Obj *o = S->mem.get(id);
  if (!o || o->kind == O_NONE) { snprintf(b, 160, "wild pointer %s at %llx", what, (unsigned long long)addr); err(b); }
  if (o->freed) { snprintf(b, 160, "use after free (%s)", what); err(b); }
  if (o->kind == O_FUNC) { snprintf(b, 160, "%s of code memory", what); err(b); }
  if (o->kind == O_EXTERN) unsup(Str("access to external object ") + o->name);
  if (off > o->size || n > o->size - off) { snprintf(b, 160, "out-of-bounds %s: offset %llu size %llu object size %llu (%s)", what, (unsigned long long)off, (unsigned long long)n, (unsigned long long)o->size, o->kind == O_STACK ? "stack" : o->kind == O_HEAP ? "heap" : o->name); err(b); }
  if (write && o->ro) err("write to constant memory");
  return o;
}
static void addPC(E c) { if (!isTrue(c)) S->pc.push_back(c); }
static u64 g_unknownBranches = 0, g_forks = 0;
static Str stackTrace();
static bool g_prof = getenv("SXFORK") != nullptr; static std::map<Str, u64> g_forkAt;
static void forkState(E c, const Model &m) {
  if (g_prof) ++g_forkAt[stackTrace().substr(0, 300)];
  State *n = new State(*S); n->pc.push_back(c); n->model = m; ++n->forks; ++g_forks;
  pending.push_back(n);
  F = top();
}
static bool inPC(E c) { size_t n = S->pc.size(); for (size_t i = 0; i < n; ++i) if (S->pc[n - 1 - i] == c) return true; return false; }
// follow the current model for condition c; the other side is forked when feasible
static bool decide(E c) {
  if (isC(c)) return c->v != 0;
  bool v = evalExpr(c, S->model) != 0;
  E mine = v ? c : mkNot(c), other = v ? mkNot(c) : c;
  if (inPC(mine)) return v;
  Model m2; Res r = checkSat(S->pc, other, S->model, m2);
  if (r == Res::Sat) { forkState(other, m2); addPC(mine); }
  else if (r == Res::Unknown) { ++g_unknownBranches; addPC(mine); }
  return v;
}
static u64 concretize(const Val &v, unsigned w) {
  if (isConstV(v)) return v.e ? (u64)v.e->v : v.c;
  u64 x = (u64)evalExpr(v.e, S->model);
  E eq = mkBin(K_EQ, v.e, mkConst(x, w));
  if (inPC(eq)) return x;
  Model m2; Res r = checkSat(S->pc, mkNot(eq), S->model, m2);
  if (r == Res::Sat) { forkState(mkNot(eq), m2); addPC(eq); }
  else if (r == Res::Unknown) { ++g_unknownBranches; addPC(eq); }
  return x;
}
static E freshUninit(unsigned w) { return mkVar("uninit", w, false); }
static void materialize(u64 id, u64 off, unsigned n) { // turn uninitialised bytes into fresh symbolic ones
  const Obj *o = S->mem.get(id);
  bool any = false; for (unsigned i = 0; i < n; ++i) if (o->buf->tag[off + i] == T_UNINIT) any = true;
  if (!any) return;
  Buf *b = S->mem.mutBuf(id); b->needSym();
  bool all = n <= 8; for (unsigned i = 0; i < n; ++i) if (b->tag[off + i] != T_UNINIT) all = false;
  if (all) { E v = freshUninit(n * 8); for (unsigned i = 0; i < n; ++i) { b->tag[off + i] = T_SYM; b->sym[off + i] = mkExtract(v, i * 8, 8); } }
  else for (unsigned i = 0; i < n; ++i) if (b->tag[off + i] == T_UNINIT) { b->tag[off + i] = T_SYM; b->sym[off + i] = freshUninit(8); }
}
static Val readAt(u64 id, u64 off, unsigned n, unsigned w) {
  const Obj *o = S->mem.get(id); Buf *b = o->buf;
  const uint8_t *t = b->tag + off;
  bool conc = true, un = false;
  for (unsigned i = 0; i < n; ++i) { if (t[i]) conc = false; if (t[i] == T_UNINIT) un = true; }
  if (conc) {
    if (n <= 8) { u64 v = 0; memcpy(&v, b->b + off, n); return Val(v & mask64(w)); }
    u128 v = 0; memcpy(&v, b->b + off, n > 16 ? 16 : n); return fromE(mkConst(v, w));
  }
  if (un) { materialize(id, off, n); o = S->mem.get(id); b = o->buf; t = b->tag + off; }
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) { E x = t[i] == T_SYM ? b->sym[off + i] : mkConst(b->b[off + i], 8); r = r ? mkConcat(x, r) : x; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static E byteE(Buf *b, u64 i) { return b->tag[i] == T_SYM ? b->sym[i] : mkConst(b->b[i], 8); }
static void putByte(Buf *b, u64 i, E x) {
  if (isC(x)) { b->b[i] = (uint8_t)x->v; b->tag[i] = T_CONC; }
  else { b->needSym(); b->sym[i] = x; b->tag[i] = T_SYM; }
}
static void writeAt(u64 id, u64 off, unsigned n, const Val &v, unsigned w) {
  Buf *b = S->mem.mutBuf(id);
  if (!v.e && n <= 8) { u64 x = v.c; memcpy(b->b + off, &x, n); memset(b->tag + off, 0, n); return; }
  E e = toE(v, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; ++i) putByte(b, off + i, mkExtract(e, i * 8, 8));
}
// resolve an address that may be symbolic; returns object id, sets off (concrete) or offE (symbolic, in bounds)
static u64 resolve(const Val &p, u64 n, bool write, u64 &off, E &offE) {
  offE = nullptr;
  if (isConstV(p)) { u64 a = p.e ? (u64)p.e->v : p.c; chk(a, n, write, write ? "write" : "read"); off = a & 0xffffffffu; return a >> 32; }
  u64 a = (u64)evalExpr(p.e, S->model);
  const Obj *o = chk(a, n, write, write ? "write" : "read");
  u64 id = a >> 32;
  E rel = mkBin(K_SUB, p.e, mkConst(id << 32, 64));
  E inb = mkBin(K_ULE, rel, mkConst(o->size - n, 64));
  if (!isTrue(inb)) decide(inb); // other side: another object or out of bounds
  o = S->mem.get(id);
  unsigned kz = knownZeros(rel); if (kz > 12) kz = 12;
  u64 cnt = ((o->size - n) >> kz) + 1;
  if (isC(rel)) { off = (u64)rel->v; return id; }
  if (cnt > 300) { off = concretize(Val(rel), 64); return id; }
  off = a & 0xffffffffu; offE = rel; return id;
}
static E muxRead(u64 id, E offE, unsigned n, unsigned w) {
  const Obj *o = S->mem.get(id);
  unsigned kz = knownZeros(offE); if (kz > 12) kz = 12;
  u64 N = ((o->size - n) >> kz) + 1; unsigned bits = 0; while ((1ull << bits) < N) ++bits;
  std::function<E(u64, int)> build = [&](u64 lo, int bit) -> E {
    if (bit < 0) return toE(readAt(id, lo << kz, n, w), w);
    u64 half = 1ull << bit;
    if (lo + half >= N) return build(lo, bit - 1);
    E hi = build(lo + half, bit - 1), l = build(lo, bit - 1);
    return mkIte(mkExtract(offE, kz + bit, 1), hi, l);
  };
  return build(0, (int)bits - 1);
}
static Val memRead(const Val &p, unsigned n, unsigned w) {
  u64 off; E oe; u64 id = resolve(p, n, false, off, oe);
  if (!oe) return readAt(id, off, n, w);
  return fromE(muxRead(id, oe, n, w));
}
static void memWrite(const Val &p, unsigned n, const Val &v, unsigned w) {
  u64 off; E oe; u64 id = resolve(p, n, true, off, oe);
  if (!oe) { writeAt(id, off, n, v, w); return; }
  const Obj *o = S->mem.get(id); unsigned kz = knownZeros(oe); if (kz > 12) kz = 12;
  u64 N = ((o->size - n) >> kz) + 1;
  E e = toE(v, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
  materialize(id, 0, o->size);
  Buf *b = S->mem.mutBuf(id);
  std::vector<E> nb(o->size); for (u64 i = 0; i < o->size; ++i) nb[i] = byteE(b, i);
  for (u64 k = 0; k < N; ++k) { E c = mkBin(K_EQ, oe, mkConst(k << kz, 64)); if (isFalse(c)) continue; for (unsigned i = 0; i < n; ++i) { u64 q = (k << kz) + i; nb[q] = mkIte(c, mkExtract(e, i * 8, 8), nb[q]); } }
  for (u64 i = 0; i < o->size; ++i) putByte(b, i, nb[i]);
}
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  chk(s, n, false, "read"); chk(d, n, true, "write");
  u64 si = s >> 32, di = d >> 32, so = s & 0xffffffffu, dof = d & 0xffffffffu;
  Buf *db = S->mem.mutBuf(di); Buf *sb = S->mem.get(si)->buf;
  if (sb->sym) db->needSym();
  memmove(db->b + dof, sb->b + so, n);
  if (sb->sym) memmove(db->sym + dof, sb->sym + so, n * sizeof(E));
  memmove(db->tag + dof, sb->tag + so, n);
}
static Str readStr(u64 a, u64 maxn = 4096) {
  Str r; for (u64 i = 0; i < maxn; ++i) { chk(a + i, 1, false, "read"); Val v = readAt((a + i) >> 32, (a + i) & 0xffffffffu, 1, 8); u64 c = isConstV(v) ? v.c : evalV(v); if (!c) break; r += (char)c; }
  return r;
}
static u64 rd64(u64 a) { Val v = memRead(Val(a), 8, 64); return concretize(v, 64); }

// ------------------------------------------------------------------ constants
static void constLeaves(const Constant *K, std::vector<Val> &out);
static u64 constInt(const Constant *K) { std::vector<Val> v; constLeaves(K, v); return v.empty() ? 0 : v[0].c; }
static u64 addrOf(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G)) return constInt(A->getAliasee());
  auto it = gaddr.find(G); if (it == gaddr.end()) { errs() << "no address for " << G->getName() << "\n"; abort(); }
  return it->second;
}
static void zeroLeaves(Type *T, std::vector<Val> &out) { std::vector<LeafTy> l; flat(T, 0, l); for (auto &x : l) out.push_back(x.w > 64 ? Val(mkConst(0, x.w)) : Val(0ull)); }
static void constLeaves(const Constant *K, std::vector<Val> &out) {
  if (auto *CI = dyn_cast<ConstantInt>(K)) {
    const APInt &a = CI->getValue();
    if (a.getBitWidth() <= 64) out.push_back(Val(a.getZExtValue()));
    else { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; out.push_back(Val(mkConst(v, a.getBitWidth()))); }
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(K)) {
    APInt a = CF->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) out.push_back(Val(a.getZExtValue()));
    else { u128 v = a.getRawData()[0] | (u128)a.getRawData()[1] << 64; out.push_back(Val(mkConst(v, a.getBitWidth()))); }
    return;
  }
  if (isa<ConstantPointerNull>(K)) { out.push_back(Val(0ull)); return; }
  if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { zeroLeaves(K->getType(), out); return; }
  if (auto *G = dyn_cast<GlobalValue>(K)) { out.push_back(Val(addrOf(G))); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(K)) { for (unsigned i = 0; i < CA->getNumOperands(); ++i) constLeaves(CA->getOperand(i), out); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) constLeaves(CD->getElementAsConstant(i), out); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    unsigned w = tyW(CE->getType());
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *GO = cast<GEPOperator>(CE); APInt off(64, 0);
      if (!GO->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; abort(); }
      out.push_back(Val(constInt(cast<Constant>(GO->getPointerOperand())) + off.getZExtValue())); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc:
      out.push_back(Val(constInt(CE->getOperand(0)) & mask64(w))); return;
    case Instruction::Add: out.push_back(Val((constInt(CE->getOperand(0)) + constInt(CE->getOperand(1))) & mask64(w))); return;
    case Instruction::Sub: out.push_back(Val((constInt(CE->getOperand(0)) - constInt(CE->getOperand(1))) & mask64(w))); return;
    case Instruction::ICmp: { u64 a = constInt(CE->getOperand(0)), b = constInt(CE->getOperand(1)); bool r = false; switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: errs() << "const icmp\n"; abort(); } out.push_back(Val((u64)r)); return; }
    default: errs() << "constexpr " << *CE << "\n"; abort();
    }
  }
  if (isa<BlockAddress>(K)) { out.push_back(Val(0ull)); return; }
  if (auto *D = dyn_cast<DSOLocalEquivalent>(K)) { out.push_back(Val(addrOf(D->getGlobalValue()))); return; }
  if (auto *N = dyn_cast<NoCFIValue>(K)) { out.push_back(Val(addrOf(N->getGlobalValue()))); return; }
  errs() << "constant " << *K << "\n"; abort();
}

// ------------------------------------------------------------------ compile function
static void compile(CFunc *cf);
static CFunc *getCF(Function *f) {
  auto &c = cfuncs[f];
  if (!c) { c = new CFunc(); c->F = f; c->name = f->getName().str(); c->dem = demangle(c->name); }
  return c;
}
static Function *overrideOf(Function *f) {
  if (auto *g = M->getFunction(("sxo$" + f->getName()).str())) if (!g->isDeclaration()) return g;
  if (auto *g = M->getFunction(("\1sxo$" + f->getName()).str())) if (!g->isDeclaration()) return g;
  return f;
}
static Ins *mk(CFunc *cf, const Instruction *I) { cf->code.emplace_back(); Ins *x = &cf->code.back(); x->I = I; return x; }
static void compile(CFunc *cf) {
  cf->compiled = true;
  Function &Fn = *cf->F;
  std::map<const Value *, int> slot; int next = 0;
  for (auto &A : Fn.args()) { slot[&A] = next; next += nLeaves(A.getType()); }
  cf->nparams = next;
  std::map<const BasicBlock *, int> bbi; int bn = 0;
  for (auto &B : Fn) { bbi[&B] = bn++; for (auto &I : B) { unsigned n = nLeaves(I.getType()); if (n) { slot[&I] = next; next += n; } } }
  cf->nregs = next;
  auto opnds = [&](const Value *V, std::vector<Opnd> &out) {
    if (auto *K = dyn_cast<Constant>(V)) { std::vector<Val> vs; constLeaves(K, vs); for (auto &v : vs) { Opnd o; o.c = v; out.push_back(o); } return; }
    auto it = slot.find(V); if (it == slot.end()) { if (V->getType()->isMetadataTy() || V->getType()->isLabelTy() || V->getType()->isTokenTy()) return; if (isa<InlineAsm>(V)) return; unsigned n = nLeaves(V->getType()); if (!n) return; errs() << "no slot " << *V << "\n"; abort(); }
    unsigned n = nLeaves(V->getType()); for (unsigned i = 0; i < n; ++i) { Opnd o; o.slot = it->second + i; out.push_back(o); }
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = bbi[to];
    for (auto &P : to->phis()) { const Value *v = P.getIncomingValueForBlock(from); std::vector<Opnd> os; opnds(v, os); for (unsigned i = 0; i < os.size(); ++i) e.moves.push_back({slot[&P] + (int)i, os[i]}); }
    return e;
  };
  cf->bb.resize(bn);
  size_t total = 0; for (auto &B : Fn) total += B.size(); cf->code.reserve(total + 1);
  for (auto &B : Fn) {
    cf->bb[bbi[&B]] = cf->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      Ins *x = mk(cf, &I);
      x->w = tyW(I.getType());
      if (slot.count(&I)) x->dst = slot[&I];
      x->n = nLeaves(I.getType());
      auto vecTy = [&](Type *T) { return T->isVectorTy(); };
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (vecTy(I.getType())) break;
        x->op = I_BIN; opnds(I.getOperand(0), x->ops); opnds(I.getOperand(1), x->ops);
        switch (I.getOpcode()) { case Instruction::Add: x->sub = K_ADD; break; case Instruction::Sub: x->sub = K_SUB; break; case Instruction::Mul: x->sub = K_MUL; break; case Instruction::UDiv: x->sub = K_UDIV; break; case Instruction::SDiv: x->sub = K_SDIV; break; case Instruction::URem: x->sub = K_UREM; break; case Instruction::SRem: x->sub = K_SREM; break; case Instruction::And: x->sub = K_AND; break; case Instruction::Or: x->sub = K_OR; break; case Instruction::Xor: x->sub = K_XOR; break; case Instruction::Shl: x->sub = K_SHL; break; case Instruction::LShr: x->sub = K_LSHR; break; default: x->sub = K_ASHR; }
        break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        if (vecTy(I.getType())) break;
        x->op = I_FBIN; opnds(I.getOperand(0), x->ops); opnds(I.getOperand(1), x->ops);
        x->sub = I.getOpcode() == Instruction::FAdd ? K_FADD : I.getOpcode() == Instruction::FSub ? K_FSUB : I.getOpcode() == Instruction::FMul ? K_FMUL : I.getOpcode() == Instruction::FDiv ? K_FDIV : K_AGG; break;
      case Instruction::FNeg: x->op = I_FNEG; opnds(I.getOperand(0), x->ops); break;
      case Instruction::ICmp: if (vecTy(I.getType())) break; x->op = I_ICMP; x->sub = cast<CmpInst>(I).getPredicate(); x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); opnds(I.getOperand(1), x->ops); break;
      case Instruction::FCmp: if (vecTy(I.getType())) break; x->op = I_FCMP; x->sub = cast<CmpInst>(I).getPredicate(); x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); opnds(I.getOperand(1), x->ops); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: if (vecTy(I.getType())) break; x->op = I.getOpcode() == Instruction::Trunc ? I_TRUNC : I.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT; x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); break;
      case Instruction::PtrToInt: x->op = x->w < 64 ? I_TRUNC : I_NOP; x->w2 = 64; opnds(I.getOperand(0), x->ops); break;
      case Instruction::IntToPtr: x->op = tyW(I.getOperand(0)->getType()) < 64 ? I_ZEXT : I_NOP; x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); break;
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
        if (vecTy(I.getType()) != vecTy(I.getOperand(0)->getType())) {
          // vector <-> scalar through bytes: handled when both sides are made of byte-sized leaves
          std::vector<LeafTy> a, b; flat(I.getOperand(0)->getType(), 0, a); flat(I.getType(), 0, b);
          x->op = I_UNSUP; break;
        }
        x->op = I_COPYLEAF; opnds(I.getOperand(0), x->ops); break;
      case Instruction::FPExt: case Instruction::FPTrunc: x->op = I_FPCAST; x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); break;
      case Instruction::FPToSI: case Instruction::FPToUI: x->op = I_FTOI; x->sub = I.getOpcode() == Instruction::FPToSI; x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); break;
      case Instruction::SIToFP: case Instruction::UIToFP: x->op = I_ITOF; x->sub = I.getOpcode() == Instruction::SIToFP; x->w2 = tyW(I.getOperand(0)->getType()); opnds(I.getOperand(0), x->ops); break;
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I); if (vecTy(I.getType())) break;
        x->op = I_GEP; opnds(G.getPointerOperand(), x->ops); i64 off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          const Value *ix = it.getOperand();
          if (auto *ST = it.getStructTypeOrNull()) { off += (i64)(u64)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sz = (i64)(u64)DL->getTypeAllocSize(it.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(ix)) { off += CI->getSExtValue() * sz; continue; }
          opnds(ix, x->ops); x->scales.push_back({sz, tyW(ix->getType())});
        }
        x->imm = (u64)off; break; }
      case Instruction::Load: x->op = I_LOAD; opnds(cast<LoadInst>(I).getPointerOperand(), x->ops); flat(I.getType(), 0, x->leaves); break;
      case Instruction::Store: { auto &SI = cast<StoreInst>(I); x->op = I_STORE; opnds(SI.getPointerOperand(), x->ops); opnds(SI.getValueOperand(), x->ops); flat(SI.getValueOperand()->getType(), 0, x->leaves); break; }
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x->op = I_ALLOCA; x->imm = DL->getTypeAllocSize(A.getAllocatedType()); opnds(A.getArraySize(), x->ops); x->w2 = tyW(A.getArraySize()->getType()); break; }
      case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isUnconditional()) { x->op = I_BR; x->edges.push_back(edge(&B, Br.getSuccessor(0))); } else { x->op = I_CBR; opnds(Br.getCondition(), x->ops); x->edges.push_back(edge(&B, Br.getSuccessor(0))); x->edges.push_back(edge(&B, Br.getSuccessor(1))); } break; }
      case Instruction::Switch: { auto &Sw = cast<SwitchInst>(I); x->op = I_SWITCH; opnds(Sw.getCondition(), x->ops); x->w2 = tyW(Sw.getCondition()->getType()); x->edges.push_back(edge(&B, Sw.getDefaultDest())); for (auto &c : Sw.cases()) { x->cases.push_back(c.getCaseValue()->getZExtValue()); x->edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
      case Instruction::Ret: x->op = I_RET; if (I.getNumOperands()) opnds(I.getOperand(0), x->ops); break;
      case Instruction::Unreachable: x->op = I_UNREACH; break;
      case Instruction::Select: if (vecTy(I.getOperand(0)->getType())) break; x->op = I_SELECT; flat(I.getType(), 0, x->leaves); opnds(I.getOperand(0), x->ops); opnds(I.getOperand(1), x->ops); opnds(I.getOperand(2), x->ops); break;
      case Instruction::ExtractValue: { auto &EV = cast<ExtractValueInst>(I); x->op = I_COPYLEAF; Type *T = EV.getAggregateOperand()->getType(); unsigned base = 0; for (unsigned ix : EV.indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) base += nLeaves(ST->getElementType(k)); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); base += ix * nLeaves(T); } } std::vector<Opnd> os; opnds(EV.getAggregateOperand(), os); for (int k = 0; k < x->n; ++k) x->ops.push_back(os[base + k]); break; }
      case Instruction::InsertValue: { auto &IV = cast<InsertValueInst>(I); x->op = I_COPYLEAF; Type *T = I.getType(); unsigned base = 0; for (unsigned ix : IV.indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) base += nLeaves(ST->getElementType(k)); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); base += ix * nLeaves(T); } } opnds(IV.getAggregateOperand(), x->ops); std::vector<Opnd> os; opnds(IV.getInsertedValueOperand(), os); for (unsigned k = 0; k < os.size(); ++k) x->ops[base + k] = os[k]; break; }
      case Instruction::ExtractElement: { auto *CI = dyn_cast<ConstantInt>(I.getOperand(1)); if (!CI) break; std::vector<Opnd> os; opnds(I.getOperand(0), os); x->op = I_COPYLEAF; x->ops.push_back(os[CI->getZExtValue()]); break; }
      case Instruction::InsertElement: { auto *CI = dyn_cast<ConstantInt>(I.getOperand(2)); if (!CI) break; opnds(I.getOperand(0), x->ops); std::vector<Opnd> os; opnds(I.getOperand(1), os); x->op = I_COPYLEAF; x->ops[CI->getZExtValue()] = os[0]; break; }
      case Instruction::ShuffleVector: { auto &SV = cast<ShuffleVectorInst>(I); std::vector<Opnd> a, b; opnds(I.getOperand(0), a); opnds(I.getOperand(1), b); x->op = I_COPYLEAF; for (int m : SV.getShuffleMask()) x->ops.push_back(m < 0 ? Opnd() : m < (int)a.size() ? a[m] : b[m - a.size()]); break; }
      case Instruction::LandingPad: x->op = I_LPAD; x->lp = cast<LandingPadInst>(&I); break;
      case Instruction::Resume: x->op = I_RESUME; opnds(I.getOperand(0), x->ops); break;
      case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); x->op = I_RMW; x->sub = A.getOperation(); opnds(A.getPointerOperand(), x->ops); opnds(A.getValOperand(), x->ops); x->imm = DL->getTypeStoreSize(I.getType()); break; }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); x->op = I_CMPXCHG; opnds(A.getPointerOperand(), x->ops); opnds(A.getCompareOperand(), x->ops); opnds(A.getNewValOperand(), x->ops); x->w2 = tyW(A.getCompareOperand()->getType()); x->imm = DL->getTypeStoreSize(A.getCompareOperand()->getType()); break; }
      case Instruction::Fence: x->op = I_FENCE; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto &CB = cast<CallBase>(I);
        x->op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
        Value *cv = CB.getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
        Function *callee = dyn_cast<Function>(cv);
        if (callee && callee->isIntrinsic()) { x->iid = callee->getIntrinsicID(); if (isa<DbgInfoIntrinsic>(I)) { cf->code.pop_back(); continue; } }
        if (callee && !callee->isIntrinsic()) x->cal = overrideOf(callee);
        int pos = 0;
        for (unsigned i = 0; i < CB.arg_size(); ++i) {
          size_t b0 = x->ops.size(); opnds(CB.getArgOperand(i), x->ops);
          if (x->ops.size() > b0) { std::vector<LeafTy> l; flat(CB.getArgOperand(i)->getType(), 0, l); for (auto &q : l) x->argw.push_back({(int)q.w, 0}); }
          if (CB.isByValArgument(i)) x->byval.push_back({pos, (u64)DL->getTypeAllocSize(CB.getParamByValType(i))});
          pos += (int)(x->ops.size() - b0);
        }
        x->imm = x->ops.size();
        if (!callee) opnds(CB.getCalledOperand(), x->ops);
        if (isa<InlineAsm>(CB.getCalledOperand())) { auto *IA = cast<InlineAsm>(CB.getCalledOperand()); if (IA->getAsmString().empty()) { x->op = I_FENCE; } else x->op = I_UNSUP; }
        flat(I.getType(), 0, x->leaves);
        if (auto *Iv = dyn_cast<InvokeInst>(&I)) { x->edges.push_back(edge(&B, Iv->getNormalDest())); x->edges.push_back(edge(&B, Iv->getUnwindDest())); x->lp = Iv->getLandingPadInst(); }
        if (x->cal && x->cal->isDeclaration()) { auto it = builtins.find(x->cal->getName().str()); if (it != builtins.end()) x->bi = it->second; }
        break; }
      default: break;
      }
    }
  }
}

// ------------------------------------------------------------------ control
static inline Val ov(const Opnd &o) { return o.slot >= 0 ? F->regs[o.slot] : o.c; }
static void takeEdge(Edge &e) {
  size_t n = e.moves.size();
  if (n == 1) F->regs[e.moves[0].first] = ov(e.moves[0].second);
  else if (n) { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; ++i) tmp[i] = ov(e.moves[i].second); for (size_t i = 0; i < n; ++i) F->regs[e.moves[i].first] = tmp[i]; }
  F->bb = e.target; F->ip = F->fn->bb[e.target];
}
static std::set<CFunc *> g_usedFns;
static void pushFrame(CFunc *cf, std::vector<Val> &args) {
  if (!cf->compiled) compile(cf);
  if (!cf->used) { cf->used = true; g_usedFns.insert(cf); }
  auto fr = std::make_shared<Frame>();
  fr->fn = cf; fr->bb = 0; fr->ip = 0; fr->regs.resize(cf->nregs);
  for (int i = 0; i < cf->nparams && i < (int)args.size(); ++i) fr->regs[i] = args[i];
  for (size_t i = cf->nparams; i < args.size(); ++i) fr->varargs.push_back(args[i]);
  auto &st = S->th[S->cur].st;
  if (st.size() > 4000) err("stack overflow (recursion deeper than 4000 frames)");
  st.push_back(fr); F = fr.get();
}
static void popFrame() {
  auto &st = S->th[S->cur].st;
  for (uint32_t id : st.back()->allocas) freeObj(S, id);
  st.pop_back();
  if (!st.empty()) F = top();
}
static void finishCall(const std::vector<Val> &ret) { // the current frame's ip is at a call/invoke that has completed
  Ins &I = F->fn->code[F->ip];
  for (int i = 0; i < I.n && i < (int)ret.size(); ++i) F->regs[I.dst + i] = ret[i];
  if (I.op == I_INVOKE) takeEdge(I.edges[0]); else ++F->ip;
}
// ---- type info / exceptions
static u64 tv_si, tv_vmi, tv_class;
static bool tiBase(u64 ti, u64 dst, i64 &off, int depth = 0) {
  if (ti == dst) { off = 0; return true; }
  const Obj *o = S->mem.get(ti >> 32), *d = S->mem.get(dst >> 32);
  if (o && d && o->name && d->name && !strcmp(o->name, d->name)) { off = 0; return true; }
  if (!o || o->kind == O_EXTERN || depth > 20) return false;
  u64 vt = rd64(ti) >> 32;
  if (vt == tv_si) return tiBase(rd64(ti + 16), dst, off, depth + 1);
  if (vt == tv_vmi) {
    u32 n = (u32)memRead(Val(ti + 20), 4, 32).c;
    for (u32 i = 0; i < n; ++i) {
      u64 b = rd64(ti + 24 + 16 * i); i64 fl = (i64)rd64(ti + 32 + 16 * i); i64 o2;
      if (tiBase(b, dst, o2, depth + 1)) { if (fl & 1) unsup("virtual base in type match"); off = (fl >> 8) + o2; return true; }
    }
  }
  return false;
}
static ExcRec *excOf(u64 obj) { for (auto &x : S->excs) if (x.obj == obj) return &x; return nullptr; }
// returns selector (0: cleanup only) and whether to land
static bool lpMatch(const LandingPadInst *lp, ExcRec *x, u64 &sel) {
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    if (lp->isCatch(i)) {
      u64 t = constInt(lp->getClause(i)); i64 off = 0;
      if (t == 0) { sel = 1; x->adjusted = x->obj; return true; }
      if (tiBase(x->ti, t, off)) { sel = t >> 32; x->adjusted = x->obj + off; return true; }
    } else unsup("exception filter clause");
  }
  sel = 0; return lp->isCleanup();
}
static bool hasHandler(ExcRec *x) {
  auto &st = S->th[S->cur].st;
  for (size_t i = st.size(); i-- > 0;) {
    Frame *f = st[i].get(); Ins &I = f->fn->code[f->ip];
    if (I.op == I_INVOKE && I.lp) { u64 sel = 0; if (lpMatch(I.lp, x, sel) && sel) return true; }
  }
  return false;
}
static Str excWhat(ExcRec *x) {
  const Obj *o = S->mem.get(x->ti >> 32); return o && o->name ? demangle(o->name) : Str("?");
}
static void unwindFrom(u64 obj, bool includeCurrent) {
  ExcRec *x = excOf(obj); if (!x) unsup("unwind without exception");
  bool first = includeCurrent;
  for (;;) {
    if (!first) popFrame();
    first = false;
    if (S->th[S->cur].st.empty()) err("uncaught exception " + excWhat(x));
    Ins &I = F->fn->code[F->ip];
    if (I.op == I_INVOKE && I.lp) { u64 sel; if (lpMatch(I.lp, x, sel)) { F->excObj = obj; takeEdge(I.edges[1]); return; } }
  }
}
static void doThrow(u64 obj) {
  ExcRec *x = excOf(obj);
  if (!hasHandler(x)) err("uncaught exception " + excWhat(x));
  unwindFrom(obj, true);
}

// ------------------------------------------------------------------ path reporting
static FILE *outF; static u64 w_paths[8]; static u64 w_ins = 0, w_asserts = 0, w_decided = 0; static std::map<Str, u64> w_reach; static std::vector<Str> w_samples; static u64 w_sampleSeen = 0; static std::map<Str, u64> w_unsup; static u64 w_cnt = 0; static std::mt19937_64 rng;
static Str jesc(const Str &s) { Str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
static Str hex(const std::vector<E> &v) { Str r; char b[4]; for (E e : v) { snprintf(b, 4, "%02x", (unsigned)evalRaw(e, S->model)); r += b; } return r; }
static Str pathJson(const Str &kind, const Str &msg) {
  evalNewEpoch();
  Str r = "{\"kind\":" + jesc(kind) + ",\"msg\":" + jesc(msg) + ",\"ins\":" + std::to_string(S->nins) + ",\"pc\":" + std::to_string(S->pc.size());
  if (kind != "ok" && !S->th[S->cur].st.empty()) r += ",\"where\":" + jesc(stackTrace());
  r += ",\"inputs\":["; bool f = true;
  for (auto &i : S->in) { r += (f ? "" : ",") + Str("[") + jesc(i.name) + ",\"" + hex(i.bytes) + "\"]"; f = false; }
  r += "],\"obs\":["; f = true;
  for (auto &i : S->obs) { r += (f ? "" : ",") + Str("[") + jesc(i.name) + ",\"" + hex(i.bytes) + "\"]"; f = false; }
  r += "],\"md5\":["; f = true;
  for (auto &m : S->md5) if (!m.real) { r += (f ? "" : ",") + Str("[\"") + hex(m.in) + "\",\"" + hex(m.out) + "\"]"; f = false; }
  return r + "]}";
}
static void report(const Str &kind, const Str &msg) {
  u32 h = 1469598103u; for (char c : kind + msg) h = (h ^ (unsigned char)c) * 16777619u; if (!h) h = 1;
  // at most o_maxErr per distinct message
  int k = -1; for (int i = 0; i < 256; ++i) { u32 z = 0; if (sh->errHash[i] == h || sh->errHash[i].compare_exchange_strong(z, h)) { k = i; break; } }
  if (k >= 0 && sh->errCount[k]++ >= o_maxErr) return;
  Str j = pathJson(kind, msg);
  fprintf(outF, "P %s\n", j.c_str()); fflush(outF);
  if (kind == "error" || kind == "limit") { sh->errs++; double t = now() + o_grace; double cur = sh->stopAt; while (t < cur && !sh->stopAt.compare_exchange_weak(cur, t)) {} }
}
static void endPath(const PathEnd &e) {
  ++w_paths[e.kind]; sh->paths++;
  if (S->reach) for (auto &r : *S->reach) ++w_reach[r];
  if (e.kind == PE_OK) {
    ++w_sampleSeen;
    if ((int)w_samples.size() < o_samples) w_samples.push_back(pathJson("ok", ""));
    else { u64 r = rng() % w_sampleSeen; if (r < (u64)o_samples) w_samples[r] = pathJson("ok", ""); }
  } else if (e.kind == PE_ERR) report("error", e.msg);
  else if (e.kind == PE_LIMIT) report("limit", e.msg);
  else if (e.kind == PE_UNSUP) { if (++w_unsup[e.msg] <= 2) report("unsupported", e.msg); }
}

#include "builtins.inc"

// ------------------------------------------------------------------ interpreter
static Val binop(Kind k, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, m = mask64(w);
    switch (k) {
    case K_ADD: return Val((x + y) & m); case K_SUB: return Val((x - y) & m); case K_MUL: return Val((x * y) & m);
    case K_AND: return Val(x & y); case K_OR: return Val(x | y); case K_XOR: return Val(x ^ y);
    case K_SHL: return Val(y >= w ? 0 : (x << y) & m); case K_LSHR: return Val(y >= w ? 0 : x >> y);
    case K_ASHR: { i64 s = (i64)sext128(x, w); return Val((u64)(s >> (y >= w ? w - 1 : y)) & m); }
    case K_UDIV: if (!y) err("division by zero"); return Val(x / y);
    case K_UREM: if (!y) err("division by zero"); return Val(x % y);
    case K_SDIV: case K_SREM: { i64 p = (i64)sext128(x, w), q = (i64)sext128(y, w); if (!q) err("division by zero"); if (q == -1) { return k == K_SDIV ? Val((0 - (u64)p) & m) : Val(0ull); } return Val((u64)(k == K_SDIV ? p / q : p % q) & m); }
    default: break;
    }
  }
  E ea = toE(a, w), eb = toE(b, w);
  if (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) { E z = mkBin(K_EQ, eb, mkConst(0, w)); if (decide(z)) err("division by zero"); }
  return fromE(mkBin(k, ea, eb));
}
static long double ldOf(const Val &v) { u128 x = v.e ? v.e->v : v.c; long double r = 0; memcpy(&r, &x, 10); return r; }
static Val ofLd(long double d) { u128 x = 0; memcpy(&x, &d, 10); return Val(mkConst(x, 80)); }

static bool outOfTime() { double n = now(); if (n - t_start > o_time || n > sh->stopAt) return true; return false; }
static u64 memUsed() { static long pg = sysconf(_SC_PAGESIZE); FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); return (u64)b * pg; }
static bool w_timeout = false; static u64 w_left = 0;
static bool trySplit();


static bool pureIns(Ins &I) {
  switch (I.op) {
    case I_BIN: { Val r = binop((Kind)I.sub, ov(I.ops[0]), ov(I.ops[1]), I.w); F->regs[I.dst] = r; ++F->ip; break; }
    case I_ICMP: {
      Val a = ov(I.ops[0]), b = ov(I.ops[1]); unsigned w = I.w2; Val r;
      if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; i64 sx = (i64)(x << (64 - w)), sy = (i64)(y << (64 - w)); bool q;
        switch (I.sub) { case CmpInst::ICMP_EQ: q = x == y; break; case CmpInst::ICMP_NE: q = x != y; break; case CmpInst::ICMP_UGT: q = x > y; break; case CmpInst::ICMP_UGE: q = x >= y; break; case CmpInst::ICMP_ULT: q = x < y; break; case CmpInst::ICMP_ULE: q = x <= y; break; case CmpInst::ICMP_SGT: q = sx > sy; break; case CmpInst::ICMP_SGE: q = sx >= sy; break; case CmpInst::ICMP_SLT: q = sx < sy; break; default: q = sx <= sy; }
        r = Val((u64)q);
      } else {
        E x = toE(a, w), y = toE(b, w), q;
        switch (I.sub) { case CmpInst::ICMP_EQ: q = mkBin(K_EQ, x, y); break; case CmpInst::ICMP_NE: q = mkNot(mkBin(K_EQ, x, y)); break; case CmpInst::ICMP_UGT: q = mkBin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: q = mkBin(K_ULE, y, x); break; case CmpInst::ICMP_ULT: q = mkBin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: q = mkBin(K_ULE, x, y); break; case CmpInst::ICMP_SGT: q = mkBin(K_SLT, y, x); break; case CmpInst::ICMP_SGE: q = mkBin(K_SLE, y, x); break; case CmpInst::ICMP_SLT: q = mkBin(K_SLT, x, y); break; default: q = mkBin(K_SLE, x, y); }
        r = fromE(q);
      }
      F->regs[I.dst] = r; ++F->ip; break; }
    case I_GEP: {
      Val p = ov(I.ops[0]); u64 off = I.imm; E se = p.e;
      u64 base = p.c;
      for (size_t i = 0; i < I.scales.size(); ++i) {
        Val ix = ov(I.ops[1 + i]); unsigned iw = I.scales[i].second; i64 sc = I.scales[i].first;
        if (!ix.e) off += (u64)((i64)sext128(ix.c, iw) * sc);
        else { E x = ix.e; if (iw < 64) x = mkSExt(x, 64); else if (iw > 64) x = mkExtract(x, 0, 64); E t = mkBin(K_MUL, x, mkConst((u64)sc, 64)); se = se ? mkBin(K_ADD, se, t) : mkBin(K_ADD, mkConst(base, 64), t); }
      }
      if (!se) F->regs[I.dst] = Val(base + off); else F->regs[I.dst] = fromE(off ? mkBin(K_ADD, se, mkConst(off, 64)) : se);
      ++F->ip; break; }
    case I_SELECT: {
      Val c = ov(I.ops[0]); size_t n = I.leaves.size();
      if (!c.e) { size_t b = (c.c & 1) ? 1 : 1 + n; for (size_t i = 0; i < n; ++i) { Val v = ov(I.ops[b + i]); F->regs[I.dst + i] = v; } }
      else for (size_t i = 0; i < n; ++i) { Val a = ov(I.ops[1 + i]), b = ov(I.ops[1 + n + i]); F->regs[I.dst + i] = fromE(mkIte(c.e, toE(a, I.leaves[i].w), toE(b, I.leaves[i].w))); }
      ++F->ip; break; }
    case I_COPYLEAF: { if (I.n == 1) F->regs[I.dst] = ov(I.ops[0]); else { std::vector<Val> t(I.n); for (int i = 0; i < I.n; ++i) t[i] = ov(I.ops[i]); for (int i = 0; i < I.n; ++i) F->regs[I.dst + i] = t[i]; } ++F->ip; break; }
    case I_NOP: F->regs[I.dst] = ov(I.ops[0]); ++F->ip; break;
    case I_TRUNC: { Val a = ov(I.ops[0]); F->regs[I.dst] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : Val(a.c & mask64(I.w)); ++F->ip; break; }
    case I_ZEXT: { Val a = ov(I.ops[0]); F->regs[I.dst] = a.e || I.w > 64 ? fromE(mkZExt(toE(a, I.w2), I.w)) : a; ++F->ip; break; }
    case I_SEXT: { Val a = ov(I.ops[0]); F->regs[I.dst] = a.e || I.w > 64 ? fromE(mkSExt(toE(a, I.w2), I.w)) : Val((u64)sext128(a.c, I.w2) & mask64(I.w)); ++F->ip; break; }
    case I_FBIN: {
      Val a = ov(I.ops[0]), b = ov(I.ops[1]);
      if (I.w == 80) { if (!isConstV(a) || !isConstV(b)) unsup("symbolic long double");
        long double x = ldOf(a), y = ldOf(b); F->regs[I.dst] = ofLd(I.sub == K_FADD ? x + y : I.sub == K_FSUB ? x - y : I.sub == K_FMUL ? x * y : I.sub == K_FDIV ? x / y : fmodl(x, y)); ++F->ip; break; }
      if (I.sub == K_AGG) { if (a.e || b.e) unsup("symbolic frem"); if (I.w == 64) { double x, y; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); x = fmod(x, y); u64 r; memcpy(&r, &x, 8); F->regs[I.dst] = Val(r); } else unsup("frem float"); ++F->ip; break; }
      F->regs[I.dst] = fromE(mkFp((Kind)I.sub, toE(a, I.w), toE(b, I.w), I.w)); ++F->ip; break; }
    case I_FNEG: { Val a = ov(I.ops[0]); if (I.w == 80) { if (!isConstV(a)) unsup("symbolic long double"); F->regs[I.dst] = ofLd(-ldOf(a)); } else F->regs[I.dst] = fromE(mkBin(K_XOR, toE(a, I.w), mkConst((u128)1 << (I.w - 1), I.w))); ++F->ip; break; }
    case I_FCMP: {
      Val a = ov(I.ops[0]), b = ov(I.ops[1]); E q;
      if (I.w2 == 80) {
        if (!isConstV(a) || !isConstV(b)) unsup("symbolic long double");
        long double x = ldOf(a), y = ldOf(b); bool un = x != x || y != y; bool eq = x == y, lt = x < y, gt = x > y; bool r = false; unsigned p = I.sub;
        if (p & 1) r |= eq; if (p & 2) r |= gt; if (p & 4) r |= lt; if (p & 8) r |= un; q = r ? mkTrue() : mkFalse();
      } else {
        E x = toE(a, I.w2), y = toE(b, I.w2); unsigned p = I.sub; // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
        if (p == 0) q = mkFalse(); else if (p == 15) q = mkTrue();
        else {
          bool un = p & 8; if (un) p = (~p) & 7; // unordered predicates are negations of the ordered complement
          switch (p & 7) { case 0: q = mkFalse(); break; case 1: q = mkFp(K_FOEQ, x, y, 1); break; case 2: q = mkFp(K_FOLT, y, x, 1); break; case 3: q = mkFp(K_FOLE, y, x, 1); break; case 4: q = mkFp(K_FOLT, x, y, 1); break; case 5: q = mkFp(K_FOLE, x, y, 1); break; case 6: q = mkBin(K_OR, mkFp(K_FOLT, x, y, 1), mkFp(K_FOLT, y, x, 1)); break; default: q = mkNot(mkFp(K_FUNO, x, y, 1)); }
          if (un) q = mkNot(q);
        }
      }
      F->regs[I.dst] = fromE(q); ++F->ip; break; }
    case I_FPCAST: {
      Val a = ov(I.ops[0]);
      if (I.w == 80 || I.w2 == 80) {
        if (!isConstV(a)) unsup("symbolic long double");
        if (I.w == 80) { long double d; if (I.w2 == 32) { float f; uint32_t x = (uint32_t)a.c; memcpy(&f, &x, 4); d = f; } else { double f; memcpy(&f, &a.c, 8); d = f; } F->regs[I.dst] = ofLd(d); }
        else if (I.w == 64) { double d = (double)ldOf(a); u64 x; memcpy(&x, &d, 8); F->regs[I.dst] = Val(x); }
        else { float d = (float)ldOf(a); uint32_t x; memcpy(&x, &d, 4); F->regs[I.dst] = Val((u64)x); }
      } else F->regs[I.dst] = fromE(mkFp(I.w > I.w2 ? K_FEXT : K_FTRUNC, toE(a, I.w2), nullptr, I.w));
      ++F->ip; break; }
    case I_FTOI: {
      Val a = ov(I.ops[0]);
      if (I.w2 == 80) { if (!isConstV(a)) unsup("symbolic long double"); long double d = ldOf(a); F->regs[I.dst] = Val((I.sub ? (u64)(i64)d : (u64)d) & mask64(I.w)); }
      else if (I.w > 64) unsup("fp to i128");
      else F->regs[I.dst] = fromE(mkFp(I.sub ? K_FTOSI : K_FTOUI, toE(a, I.w2), nullptr, I.w));
      ++F->ip; break; }
    case I_ITOF: {
      Val a = ov(I.ops[0]);
      if (I.w == 80) { if (!isConstV(a)) unsup("symbolic long double"); F->regs[I.dst] = ofLd(I.sub ? (long double)(i64)sext128(a.c, I.w2) : (long double)a.c); }
      else F->regs[I.dst] = fromE(mkFp(I.sub ? K_SITOF : K_UITOF, toE(a, I.w2), nullptr, I.w));
      ++F->ip; break; }
    default: return false;
  }
  return true;
}

// ------------------------------------------------------------------ merging of side-effect-free branches
// The code between a symbolic branch and its immediate postdominator is evaluated once under guards when it is
// acyclic and has no effect beyond registers and plain stores; values are joined with if-then-else.
struct Region { bool ok = false; int join = -1; std::vector<int> order; };
static std::map<CFunc *, PostDominatorTree *> g_pdt; static std::map<CFunc *, std::vector<const BasicBlock *>> g_bbs; static std::map<std::pair<CFunc *, int>, Region> g_regions; static std::map<CFunc *, int> g_pureFn;
static u64 w_merges = 0;
static bool pureIntrinsic(unsigned id) {
  switch (id) { case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::bitreverse: case Intrinsic::fabs: case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::is_constant: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::expect: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::fmuladd: return true; default: return false; }
}
static bool pureFunction(CFunc *cf, int depth);
static bool insOk(Ins &I, bool topLevel, int depth) {
  switch (I.op) {
  case I_BIN: case I_ICMP: case I_GEP: case I_SELECT: case I_COPYLEAF: case I_NOP: case I_TRUNC: case I_ZEXT: case I_SEXT: case I_FCMP: case I_FNEG: case I_BR: case I_CBR: case I_SWITCH: case I_RET: return true;
  case I_FBIN: case I_FPCAST: case I_FTOI: case I_ITOF: return I.w != 80 && I.w2 != 80;
  case I_LOAD: { auto *L = dyn_cast<LoadInst>(I.I); return L && !L->isVolatile() && !L->isAtomic() && I.leaves.size() == 1 && I.leaves[0].bytes <= 8; }
  case I_STORE: { auto *L = dyn_cast<StoreInst>(I.I); return L && !L->isVolatile() && !L->isAtomic() && I.leaves.size() == 1 && I.leaves[0].bytes <= 8; }
  case I_CALL: case I_INVOKE: if (I.iid) return pureIntrinsic(I.iid); return I.cal && !I.cal->isDeclaration() && I.byval.empty() && depth < 4 && pureFunction(getCF(I.cal), depth + 1);
  default: return false;
  }
}
static int insEnd(CFunc *cf, int b) { return b + 1 < (int)cf->bb.size() ? cf->bb[b + 1] : (int)cf->code.size(); }
// depth-first search from the given blocks; false when a cycle or an unsuitable instruction is met
static bool topo(CFunc *cf, int b, int join, std::map<int, int> &st, std::vector<int> &post, int depth) {
  if (b == join) return true;
  auto it = st.find(b); if (it != st.end()) return it->second == 2;
  if (st.size() > 80) return false;
  st[b] = 1;
  int e = insEnd(cf, b);
  for (int i = cf->bb[b]; i < e; ++i) if (!insOk(cf->code[i], true, depth)) return false;
  Ins &T = cf->code[e - 1];
  if (T.op == I_RET) { if (join >= 0) return false; }
  else if (T.op == I_INVOKE) { if (!topo(cf, T.edges[0].target, join, st, post, depth)) return false; }
  else if (T.op == I_BR || T.op == I_CBR || T.op == I_SWITCH) { for (auto &x : T.edges) if (!topo(cf, x.target, join, st, post, depth)) return false; }
  else return false;
  st[b] = 2; post.push_back(b); return true;
}
static std::map<CFunc *, Region> g_fnRegion;
static bool pureFunction(CFunc *cf, int depth) {
  auto it = g_pureFn.find(cf); if (it != g_pureFn.end()) return it->second == 1;
  g_pureFn[cf] = 0; // recursion counts as impure
  if (cf->F->isVarArg()) return false;
  if (!cf->compiled) compile(cf);
  Region r; std::map<int, int> st; r.ok = topo(cf, 0, -1, st, r.order, depth); std::reverse(r.order.begin(), r.order.end());
  g_fnRegion[cf] = r; g_pureFn[cf] = r.ok; return r.ok;
}
static Region &regionOf(CFunc *cf, int bb, Ins &I) {
  auto k = std::make_pair(cf, bb); auto it = g_regions.find(k); if (it != g_regions.end()) return it->second;
  Region &r = g_regions[k];
  auto *&pdt = g_pdt[cf]; auto &bbs = g_bbs[cf];
  if (!pdt) { pdt = new PostDominatorTree(*cf->F); for (auto &B : *cf->F) bbs.push_back(&B); }
  auto *n = pdt->getNode(const_cast<BasicBlock *>(bbs[bb])); if (!n || !n->getIDom()) return r;
  const BasicBlock *j = n->getIDom()->getBlock();
  if (j) { for (size_t i = 0; i < bbs.size(); ++i) if (bbs[i] == j) r.join = (int)i; }
  std::map<int, int> st; st[bb] = 1; r.ok = true;
  for (auto &e : I.edges) if (!topo(cf, e.target, r.join, st, r.order, 0)) { r.ok = false; break; }
  std::reverse(r.order.begin(), r.order.end());
  return r;
}
struct Bail {};
struct StoreRec { u64 id, off; unsigned n, w; Val v; E g; };
struct MergeCtx { std::vector<StoreRec> st; u64 budget = 4000; };
struct Joined { bool any = false; std::vector<Val> v; std::vector<int> dst; };
static Val iteV(E g, const Val &a, const Val &b, unsigned w) { if (a.e == b.e && a.c == b.c) return a; return fromE(mkIte(g, toE(a, w), toE(b, w))); }
static unsigned widthOfV(const Val &a, const Val &b) { return a.e ? a.e->w : b.e ? b.e->w : 64; }
static void joinVal(Joined &J, E g, const std::vector<Val> &v, const std::vector<unsigned> &w) {
  if (!J.any) { J.any = true; J.v = v; return; }
  for (size_t i = 0; i < v.size(); ++i) J.v[i] = iteV(g, v[i], J.v[i], w[i]);
}
static std::vector<unsigned> &phiWidths(CFunc *cf, int b) {
  static std::map<std::pair<CFunc *, int>, std::vector<unsigned>> memo; auto k = std::make_pair(cf, b); auto it = memo.find(k); if (it != memo.end()) return it->second;
  auto &w = memo[k]; auto &bbs = g_bbs[cf]; if (bbs.empty()) for (auto &B : *cf->F) bbs.push_back(&B);
  for (auto &P : bbs[b]->phis()) { std::vector<LeafTy> l; flat(P.getType(), 0, l); for (auto &x : l) w.push_back(x.w); }
  return w;
}
static bool runRegion(CFunc *cf, const Region &R, std::map<int, E> &guard, std::map<int, Joined> &in, MergeCtx &C_, Joined &ret, E base);
static Val guardedLoad(const Val &p, unsigned n, unsigned w, E g, MergeCtx &C_) {
  u64 a; E rel = nullptr;
  if (isConstV(p)) a = p.e ? (u64)p.e->v : p.c;
  else { Model m; if (checkSat(S->pc, g, S->model, m) != Res::Sat) throw Bail(); a = (u64)evalExpr(p.e, m); }
  u64 id = a >> 32; const Obj *o = id ? S->mem.get(id) : nullptr;
  if (!o || o->freed || !(o->kind == O_GLOBAL || o->kind == O_STACK || o->kind == O_HEAP) || (a & 0xffffffffu) > o->size || n > o->size - (a & 0xffffffffu)) throw Bail();
  if (!isConstV(p)) {
    rel = mkBin(K_SUB, p.e, mkConst(id << 32, 64)); E inb = mkBin(K_ULE, rel, mkConst(o->size - n, 64));
    unsigned kz = knownZeros(rel); if (kz > 12) kz = 12; if (((o->size - n) >> kz) + 1 > 300) throw Bail();
    if (!isTrue(inb)) { Model m; if (checkSat(S->pc, mkBin(K_AND, g, mkNot(inb)), S->model, m) != Res::Unsat) throw Bail(); }
    for (auto &s : C_.st) if (s.id == id) throw Bail();
    return fromE(muxRead(id, rel, n, w));
  }
  u64 off = a & 0xffffffffu;
  for (auto &s : C_.st) if (s.id == id && s.off < off + n && off < s.off + s.n) throw Bail();
  return readAt(id, off, n, w);
}
static void guardEdge(CFunc *cf, Edge &e, E g, std::map<int, E> &guard, std::map<int, Joined> &in, int join) {
  if (isFalse(g)) return;
  auto &w = phiWidths(cf, e.target); std::vector<Val> v; v.reserve(e.moves.size()); for (auto &m : e.moves) v.push_back(ov(m.second));
  auto it = guard.find(e.target);
  if (it == guard.end()) guard[e.target] = g; else it->second = mkBin(K_OR, it->second, g);
  joinVal(in[e.target], g, v, w);
  Joined &J = in[e.target];
  if (e.target == join) { if (J.dst.empty()) for (auto &m : e.moves) J.dst.push_back(m.first); return; } // the join's own phis change only at the end
  for (size_t i = 0; i < e.moves.size(); ++i) F->regs[e.moves[i].first] = J.v[i];
}
static void branchEdges(CFunc *cf, Ins &I, E g, std::map<int, E> &guard, std::map<int, Joined> &in, int join) {
  if (I.op == I_BR || I.op == I_INVOKE) { guardEdge(cf, I.edges[0], g, guard, in, join); return; }
  if (I.op == I_CBR) { E c = toE(ov(I.ops[0]), 1); guardEdge(cf, I.edges[0], mkBin(K_AND, g, c), guard, in, join); guardEdge(cf, I.edges[1], mkBin(K_AND, g, mkNot(c)), guard, in, join); return; }
  E v = toE(ov(I.ops[0]), I.w2), none = mkTrue();
  for (size_t i = 0; i < I.cases.size(); ++i) { E c = mkBin(K_EQ, v, mkConst(I.cases[i], I.w2)); none = mkBin(K_AND, none, mkNot(c)); guardEdge(cf, I.edges[i + 1], mkBin(K_AND, g, c), guard, in, join); }
  guardEdge(cf, I.edges[0], mkBin(K_AND, g, none), guard, in, join);
}
static Joined callPure(CFunc *cf, std::vector<Val> &args, E g, MergeCtx &C_) {
  Region &R = g_fnRegion[cf];
  if (!cf->used) { cf->used = true; g_usedFns.insert(cf); }
  Frame fr; fr.fn = cf; fr.bb = 0; fr.ip = 0; fr.regs.resize(cf->nregs); for (int i = 0; i < cf->nparams && i < (int)args.size(); ++i) fr.regs[i] = args[i];
  Frame *old = F; F = &fr;
  std::map<int, E> guard; std::map<int, Joined> in; guard[0] = g; Joined ret;
  try { runRegion(cf, R, guard, in, C_, ret, g); } catch (...) { F = old; throw; }
  F = old; return ret;
}
static bool runRegion(CFunc *cf, const Region &R, std::map<int, E> &guard, std::map<int, Joined> &in, MergeCtx &C_, Joined &ret, E base) {
  for (int b : R.order) {
    auto it = guard.find(b); if (it == guard.end()) continue;
    E g = it->second; int e = insEnd(cf, b);
    for (int i = cf->bb[b]; i < e; ++i) {
      Ins &I = cf->code[i]; if (!C_.budget--) throw Bail(); ++w_ins; ++S->nins; F->ip = i;
      switch (I.op) {
      case I_LOAD: F->regs[I.dst] = guardedLoad(ov(I.ops[0]), I.leaves[0].bytes, I.leaves[0].w, g, C_); break;
      case I_STORE: {
        Val p = ov(I.ops[0]); if (!isConstV(p)) throw Bail(); u64 a = p.e ? (u64)p.e->v : p.c; const Obj *o = (a >> 32) ? S->mem.get(a >> 32) : nullptr; unsigned n = I.leaves[0].bytes;
        if (!o || o->freed || o->ro || !(o->kind == O_GLOBAL || o->kind == O_STACK || o->kind == O_HEAP) || (a & 0xffffffffu) > o->size || n > o->size - (a & 0xffffffffu)) throw Bail();
        C_.st.push_back({a >> 32, a & 0xffffffffu, n, I.leaves[0].w, ov(I.ops[1]), g}); break; }
      case I_BIN: if (I.sub == K_UDIV || I.sub == K_UREM || I.sub == K_SDIV || I.sub == K_SREM) { Val d = ov(I.ops[1]); if (!isConstV(d) || evalV(d) == 0) throw Bail(); } pureIns(I); break;
      case I_BR: case I_CBR: case I_SWITCH: branchEdges(cf, I, g, guard, in, R.join); break;
      case I_RET: {
        std::vector<Val> v; std::vector<unsigned> w; for (auto &o : I.ops) v.push_back(ov(o));
        Type *T = cf->F->getReturnType(); std::vector<LeafTy> l; flat(T, 0, l); for (auto &x : l) w.push_back(x.w);
        joinVal(ret, g, v, w); break; }
      case I_CALL: case I_INVOKE:
        if (I.iid) { intrinsic(I); F->ip = i; }
        else {
          std::vector<Val> args; for (size_t k = 0; k < I.imm; ++k) args.push_back(ov(I.ops[k]));
          Joined r = callPure(getCF(I.cal), args, g, C_); if (I.n && !r.any) throw Bail();
          for (int k = 0; k < I.n; ++k) F->regs[I.dst + k] = r.v[k];
        }
        if (I.op == I_INVOKE) branchEdges(cf, I, g, guard, in, R.join);
        break;
      default: if (!pureIns(I)) throw Bail();
      }
    }
  }
  return true;
}
static bool tryMerge(Ins &I) {
  CFunc *cf = F->fn; Region &R = regionOf(cf, F->bb, I);
  if (!R.ok) return false;
  if (R.join < 0 && S->th[S->cur].st.size() <= 1) return false;
  if (g_bbs[cf].empty()) for (auto &B : *cf->F) g_bbs[cf].push_back(&B);
  MergeCtx C_; std::map<int, E> guard; std::map<int, Joined> in; Joined ret; int ip0 = F->ip, bb0 = F->bb; Frame *f0 = F;
  try {
    branchEdges(cf, I, mkTrue(), guard, in, R.join);
    runRegion(cf, R, guard, in, C_, ret, mkTrue());
  } catch (Bail &) { F = f0; F->ip = ip0; F->bb = bb0; return false; }
  catch (PathEnd &) { F = f0; F->ip = ip0; F->bb = bb0; return false; }
  for (auto &s : C_.st) { Val old = readAt(s.id, s.off, s.n, s.w); writeAt(s.id, s.off, s.n, iteV(s.g, s.v, old, s.w), s.w); }
  ++w_merges;
  if (R.join >= 0) { Joined &J = in[R.join]; for (size_t i = 0; i < J.dst.size(); ++i) F->regs[J.dst[i]] = J.v[i]; F->bb = R.join; F->ip = cf->bb[R.join]; return true; }
  popFrame(); finishCall(ret.v); return true;
}

static void step() {
  for (;;) {
    Ins &I = F->fn->code[F->ip];
    ++w_ins;
    if (++S->nins >= o_maxIns) throw PathEnd{PE_LIMIT, "path exceeds " + std::to_string(o_maxIns) + " instructions (suspected non-termination)"};
    if ((w_ins & 0x3fff) == 0) {
      if (outOfTime()) throw PathEnd{PE_SWITCH, ""};
      if (!pending.empty() && sh->active < o_workers) { if (trySplit()) F = top(); }
    }
    switch (I.op) {
    case I_LOAD: {
      Val p = ov(I.ops[0]);
      if (I.leaves.size() == 1) {
        unsigned n = I.leaves[0].bytes, w = I.leaves[0].w;
        if (n == 10) { Val v = memRead(p, 10, 80); F->regs[I.dst] = v.e ? v : Val(mkConst(v.c, 80)); ++F->ip; break; }
        Val v = memRead(p, n, w); F->regs[I.dst] = v; ++F->ip; break;
      }
      { u64 a = concretize(p, 64); for (size_t i = 0; i < I.leaves.size(); ++i) { Val v = memRead(Val(a + I.leaves[i].off), I.leaves[i].bytes, I.leaves[i].w); F->regs[I.dst + i] = v; } ++F->ip; }
      break; }
    case I_STORE: {
      Val p = ov(I.ops[0]);
      if (I.leaves.size() == 1) { Val v = ov(I.ops[1]); memWrite(p, I.leaves[0].bytes, v, I.leaves[0].w); }
      else { u64 a = concretize(p, 64); for (size_t i = 0; i < I.leaves.size(); ++i) memWrite(Val(a + I.leaves[i].off), I.leaves[i].bytes, ov(I.ops[1 + i]), I.leaves[i].w); }
      ++F->ip; break; }
    case I_ALLOCA: {
      u64 n = concretize(ov(I.ops[0]), I.w2);
      u64 id = newObj(S, n * I.imm, O_STACK, "", true);
      F->allocas.push_back((uint32_t)id); F->regs[I.dst] = Val(id << 32); ++F->ip; break; }
    case I_BR: takeEdge(I.edges[0]); break;
    case I_CBR: {
      Val c = ov(I.ops[0]);
      if (!c.e || isC(c.e)) { takeEdge(I.edges[evalV(c) & 1 ? 0 : 1]); break; }
      bool v = evalExpr(c.e, S->model) != 0;
      E mine = v ? c.e : mkNot(c.e), other = v ? mkNot(c.e) : c.e;
      if (inPC(mine)) { takeEdge(I.edges[v ? 0 : 1]); break; }
      Model m2; Res r = checkSat(S->pc, other, S->model, m2);
      if (r == Res::Sat) { if (o_merge && tryMerge(I)) break; forkState(other, m2); addPC(mine); }
      else if (r == Res::Unknown) { ++g_unknownBranches; addPC(mine); }
      takeEdge(I.edges[v ? 0 : 1]); break; }
    case I_SWITCH: {
      Val v = ov(I.ops[0]); unsigned w = I.w2;
      if (isConstV(v)) { u64 x = v.e ? (u64)v.e->v : v.c; size_t t = 0; for (size_t i = 0; i < I.cases.size(); ++i) if (I.cases[i] == x) { t = i + 1; break; } takeEdge(I.edges[t]); break; }
      if (o_merge && tryMerge(I)) break;
      u64 x = (u64)evalExpr(v.e, S->model);
      // group the cases by target
      std::map<int, std::vector<size_t>> g; int mine = I.edges[0].target; bool found = false; size_t mi = 0;
      bool phi = false; for (auto &e : I.edges) if (!e.moves.empty()) phi = true;
      for (size_t i = 0; i < I.cases.size(); ++i) { int key = phi ? (int)i + 1000000 : I.edges[i + 1].target; g[key].push_back(i); if (I.cases[i] == x) { mine = key; mi = i + 1; found = true; } }
      int defKey = phi ? -1 : I.edges[0].target; if (!found) { mine = defKey; mi = 0; }
      E none = mkTrue(); for (size_t i = 0; i < I.cases.size(); ++i) none = mkBin(K_AND, none, mkNot(mkBin(K_EQ, v.e, mkConst(I.cases[i], w))));
      E myc = nullptr;
      g[defKey];
      std::vector<std::pair<int, E>> conds;
      for (auto &kv : g) { E c = kv.first == defKey ? none : mkFalse(); for (size_t i : kv.second) c = mkBin(K_OR, c, mkBin(K_EQ, v.e, mkConst(I.cases[i], w))); conds.push_back({kv.first, c}); if (kv.first == mine) myc = c; }
      if (!inPC(myc)) {
        bool forked = false;
        for (auto &kv : conds) if (kv.first != mine && !isFalse(kv.second)) { Model m2; Res r = checkSat(S->pc, kv.second, S->model, m2); if (r == Res::Sat) { forkState(kv.second, m2); forked = true; } else if (r == Res::Unknown) { ++g_unknownBranches; forked = true; } }
        if (forked) addPC(myc);
      }
      takeEdge(I.edges[mi]); break; }
    case I_RMW: {
      Val p = ov(I.ops[0]), v = ov(I.ops[1]); Val o = memRead(p, (unsigned)I.imm, I.w); Val n;
      switch (I.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(K_ADD, o, v, I.w); break; case AtomicRMWInst::Sub: n = binop(K_SUB, o, v, I.w); break; case AtomicRMWInst::And: n = binop(K_AND, o, v, I.w); break; case AtomicRMWInst::Or: n = binop(K_OR, o, v, I.w); break; case AtomicRMWInst::Xor: n = binop(K_XOR, o, v, I.w); break; default: unsup("atomicrmw op"); }
      memWrite(p, (unsigned)I.imm, n, I.w); F->regs[I.dst] = o; ++F->ip; break; }
    case I_CMPXCHG: {
      Val p = ov(I.ops[0]), c = ov(I.ops[1]), n = ov(I.ops[2]); Val o = memRead(p, (unsigned)I.imm, I.w2);
      E eq = mkBin(K_EQ, toE(o, I.w2), toE(c, I.w2)); bool ok = decide(eq);
      if (ok) memWrite(p, (unsigned)I.imm, n, I.w2);
      F->regs[I.dst] = o; F->regs[I.dst + 1] = Val((u64)ok); ++F->ip; break; }
    case I_FENCE: ++F->ip; break;
    case I_CALL: case I_INVOKE: doCall(I); break;
    case I_RET: {
      std::vector<Val> r; for (auto &o : I.ops) r.push_back(ov(o));
      auto &st = S->th[S->cur].st;
      if (st.size() == 1) { if (S->cur == 0) throw PathEnd{PE_OK, ""}; popFrame(); threadEnd(); break; }
      popFrame(); finishCall(r); break; }
    case I_LPAD: {
      ExcRec *x = excOf(F->excObj); u64 sel; if (!x) unsup("landingpad without exception"); lpMatch(I.lp, x, sel);
      F->regs[I.dst] = Val(x->obj); F->regs[I.dst + 1] = Val(sel & 0xffffffffu); ++F->ip; break; }
    case I_RESUME: { u64 o = ov(I.ops[0]).c; unwindFrom(o, false); break; }
    case I_UNREACH: err("unreachable code executed"); break;
    default: if (!pureIns(I)) { Str s; raw_string_ostream os(s); os << *I.I; unsup("instruction " + os.str()); }
    }
  }
}

// ------------------------------------------------------------------ scheduler / workers
static int w_id = 0;
static void writeSummary();
static bool trySplit() {
  if (pending.size() < 2) return false;
  int a = sh->active; if (a >= o_workers) return false;
  if (!sh->active.compare_exchange_strong(a, a + 1)) return false;
  fflush(outF);
  pid_t p = fork();
  if (p < 0) { sh->active--; return false; }
  size_t half = (pending.size() + 1) / 2;
  // the child takes the interleaved older half
  std::vector<State *> mine, theirs;
  for (size_t i = 0; i < pending.size(); ++i) (i < half ? theirs : mine).push_back(pending[i]);
  if (p == 0) {
    w_id = sh->nworker++; rng.seed(o_seed * 1000 + w_id);
    outF = fopen((o_out + "/w" + std::to_string(w_id) + ".out").c_str(), "w");
    memset(w_paths, 0, sizeof w_paths); w_ins = 0; w_asserts = w_decided = w_merges = 0; w_reach.clear(); w_samples.clear(); w_sampleSeen = 0; w_unsup.clear(); g_unknownBranches = 0; g_forks = 0; g_ss = SolverStats(); w_timeout = false; w_left = 0; g_usedFns.clear(); for (auto &c : cfuncs) if (c.second) c.second->used = false;
    pending = theirs; // the current state S belongs to the parent
    S = nullptr;
    throw PathEnd{PE_SWITCH, "child"};
  }
  for (State *s : theirs) delete s;
  pending = mine;
  return true;
}
static void workLoop() {
  for (;;) {
    if (!S) {
      if (pending.empty()) break;
      if (outOfTime() || (o_maxPaths && sh->paths >= o_maxPaths)) { w_timeout = true; w_left = pending.size(); break; }
      S = pending.back(); pending.pop_back(); F = top();
    }
    try { step(); }
    catch (PathEnd &e) {
      if (e.kind == PE_SWITCH) {
        if (!S) continue; // child of a split
        w_timeout = true; w_left = pending.size() + 1; break;
      }
      endPath(e);
      delete S; S = nullptr;
      ++w_cnt;
      if ((w_cnt & 63) == 0 && memUsed() > (u64)(o_memGB * 1e9 / o_workers)) { w_timeout = true; w_left = pending.size(); fprintf(outF, "U memory limit\n"); break; }
    }
  }
}
static void writeSummary() {
  if (g_prof) { std::vector<std::pair<u64, Str>> v; for (auto &x : g_forkAt) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; ++i) fprintf(stderr, "FORKS %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fprintf(outF, "S {\"ok\":%llu,\"infeasible\":%llu,\"error\":%llu,\"unsup\":%llu,\"limit\":%llu,\"ins\":%llu,\"asserts\":%llu,\"decided\":%llu,\"forks\":%llu,\"unknown_branches\":%llu,\"timeout\":%d,\"left\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"merges\":%llu,\"solver_max_s\":%.3f}\n",
          (unsigned long long)w_paths[PE_OK], (unsigned long long)w_paths[PE_INFEAS], (unsigned long long)w_paths[PE_ERR], (unsigned long long)w_paths[PE_UNSUP], (unsigned long long)w_paths[PE_LIMIT], (unsigned long long)w_ins, (unsigned long long)w_asserts, (unsigned long long)w_decided, (unsigned long long)g_forks, (unsigned long long)g_unknownBranches, (int)w_timeout, (unsigned long long)w_left,
          (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, g_ss.time, (unsigned long long)w_merges, g_ss.maxTime);
  for (auto &r : w_reach) fprintf(outF, "R %s %llu\n", jesc(r.first).c_str(), (unsigned long long)r.second);
  for (auto &s : w_samples) fprintf(outF, "K %s\n", s.c_str());
  for (auto *c : g_usedFns) fprintf(outF, "F %s\n", c->dem.c_str());
  fflush(outF);
}

static void initMem(const Constant *K, u64 a) {
  Type *T = K->getType();
  if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(K)) {
    if (CD->getElementByteSize() == 1) { StringRef s = CD->getRawDataValues(); memcpy(S->mem.mutBuf(a >> 32)->b + (a & 0xffffffffu), s.data(), s.size()); return; }
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(K)) {
    if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < CA->getNumOperands(); ++i) initMem(CA->getOperand(i), a + (u64)L->getElementOffset(i)); }
    else { u64 es = DL->getTypeAllocSize(T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); ++i) initMem(CA->getOperand(i), a + i * es); }
    return;
  }
  std::vector<LeafTy> l; flat(T, 0, l); std::vector<Val> v; constLeaves(K, v);
  for (size_t i = 0; i < l.size(); ++i) writeAt(a >> 32, (a & 0xffffffffu) + l[i].off, l[i].bytes, v[i], l[i].w);
}

int main(int argc, char **argv) {
  Str file;
  for (int i = 1; i < argc; ++i) {
    Str a = argv[i]; auto nx = [&]() { return Str(argv[++i]); };
    if (a == "--time") o_time = atof(nx().c_str()); else if (a == "--workers") o_workers = atoi(nx().c_str()); else if (a == "--max-ins") o_maxIns = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") o_out = nx(); else if (a == "--seed") o_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") g_rlimit = atoi(nx().c_str());
    else if (a == "--preempt") o_preempt = atoi(nx().c_str()); else if (a == "--grace") o_grace = atof(nx().c_str()); else if (a == "--samples") o_samples = atoi(nx().c_str());
    else if (a == "--dump") g_dumpDir = nx(); else if (a == "--trace") o_trace = true; else if (a == "--no-merge") o_merge = false; else if (a == "--max-paths") o_maxPaths = atoll(nx().c_str()); else if (a == "--max-err") o_maxErr = atoi(nx().c_str()); else if (a == "--entry") o_entry = nx();
    else if (a == "--arg") { Str kv = nx(); size_t p = kv.find('='); g_args[kv.substr(0, p)] = strtoull(kv.substr(p + 1).c_str(), 0, 0); }
    else file = a;
  }
  t_start = now(); rng.seed(o_seed);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->active = 1; sh->nworker = 1; sh->stopAt = 1e300;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_STACK, &rl);
  C = new LLVMContext(); SMDiagnostic diag;
  auto mod = parseIRFile(file, diag, *C);
  if (!mod) { diag.print("sxe", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  initBuiltins();
  S = new State(); S->nextObj = 1;
  S->preempt = o_preempt;
  S->th.emplace_back();
  funcById.push_back(nullptr);
  auto setName = [&](u64 id, const GlobalValue &G) { S->mem.mut(id)->name = strdup(G.getName().str().c_str()); gname[G.getName().str()] = id << 32; };
  for (auto &Fn : *M) { u64 id = newObj(S, 0, O_FUNC, "", false); gaddr[&Fn] = id << 32; setName(id, Fn); while (funcById.size() <= id) funcById.push_back(nullptr); funcById[id] = getCF(&Fn); }
  for (auto &G : M->globals()) { bool ext = G.isDeclaration(); u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; u64 id = newObj(S, ext ? std::max<u64>(sz, 256) : sz, ext ? O_EXTERN : O_GLOBAL, "", false); gaddr[&G] = id << 32; setName(id, G); }
  for (auto &G : M->globals()) if (!G.isDeclaration()) { initMem(G.getInitializer(), gaddr[&G]); }
  for (auto &G : M->globals()) if (!G.isDeclaration() && G.isConstant()) S->mem.mut(gaddr[&G] >> 32)->ro = true;
  auto tv = [&](const char *n) { auto it = gname.find(n); return it == gname.end() ? (u64)-1 : it->second >> 32; };
  tv_si = tv("_ZTVN10__cxxabiv120__si_class_type_infoE"); tv_vmi = tv("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); tv_class = tv("_ZTVN10__cxxabiv117__class_type_infoE");
  Function *entry = M->getFunction(o_entry); if (!entry) { fprintf(stderr, "no %s\n", o_entry.c_str()); return 3; }
  // global constructors, in priority order, then the entry point: a synthetic driver chain
  std::vector<std::pair<u64, Function *>> ctors;
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &o : A->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  outF = fopen((o_out + "/w0.out").c_str(), "w");
  g_initing = true;
  for (auto &c : ctors) {
    std::vector<Val> none; 
    pushFrame(getCF(c.second), none);
    try { step(); } catch (PathEnd &e) { if (e.kind != PE_OK) { fprintf(stderr, "global constructor %s: %s\n   at %s\n", c.second->getName().str().c_str(), e.msg.c_str(), stackTrace().c_str()); return 3; } }
    S->th[0].st.clear();
  }
  g_initing = false;
  u64 initIns = S->nins; S->nins = 0;
  std::vector<Val> none; pushFrame(getCF(entry), none);
  double tInit = now() - t_start;
  workLoop();
  writeSummary(); fclose(outF);
  sh->active--;
  if (w_id != 0) _exit(0);
  // the first process waits for all the others
  while (true) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { FILE *f = fopen((o_out + "/crash.out").c_str(), "a"); if (f) { fprintf(f, "U worker died: status %d\n", st); fclose(f); } } }
  FILE *f = fopen((o_out + "/main.out").c_str(), "w");
  fprintf(f, "T {\"wall\":%.3f,\"init_s\":%.3f,\"init_ins\":%llu,\"workers\":%d}\n", now() - t_start, tInit, (unsigned long long)initIns, (int)sh->nworker);
  fclose(f);
  return 0;
}
