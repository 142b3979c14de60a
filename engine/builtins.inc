// Built-in functions of the executor (part of engine.cpp).
static std::map<Str, u64> g_args; static bool g_initing = false;
#define ARG(i) ((*B.a)[i])
static u64 cARG(BCtx &B, size_t i, unsigned w = 64) { return concretize((*B.a)[i], w); }

static void finishCall1(const Val &v) {
  Ins &I = F->fn->code[F->ip];
  if (I.n >= 1) F->regs[I.dst] = v;
  if (I.op == I_INVOKE) takeEdge(I.edges[0]); else ++F->ip;
}
static u64 heapAlloc(u64 n, const char *what, uint8_t ak) {
  if (n > (256ull << 20)) unsup("allocation of " + std::to_string(n) + " bytes");
  u64 id = newObj(S, n, O_HEAP, what, true); S->mem.mut(id)->akind = ak; return id << 32;
}
static void heapFree(u64 p, uint8_t ak) {
  if (!p) return;
  const Obj *o = S->mem.get(p >> 32);
  if (!o || o->kind != O_HEAP || (p & 0xffffffffu)) err("free of a pointer that was not allocated");
  if (o->freed) err("double free");
  if (o->akind != ak) err("mismatched allocation and deallocation functions");
  freeObj(S, p >> 32);
}
static void b_new(BCtx &B) { B.ret = Val(heapAlloc(cARG(B, 0), "new", 1)); }
static void b_newa(BCtx &B) { B.ret = Val(heapAlloc(cARG(B, 0), "new[]", 2)); }
static void b_del(BCtx &B) { heapFree(cARG(B, 0), 1); }
static void b_dela(BCtx &B) { heapFree(cARG(B, 0), 2); }
static void b_malloc(BCtx &B) { B.ret = Val(heapAlloc(cARG(B, 0), "malloc", 0)); }
static void b_calloc(BCtx &B) { u64 n = cARG(B, 0) * cARG(B, 1); u64 a = heapAlloc(n, "calloc", 0); Buf *b = S->mem.mutBuf(a >> 32); memset(b->tag, 0, n); B.ret = Val(a); }
static void b_free(BCtx &B) { heapFree(cARG(B, 0), 0); }
static void b_realloc(BCtx &B) {
  u64 p = cARG(B, 0), n = cARG(B, 1); u64 q = heapAlloc(n, "malloc", 0);
  if (p) { const Obj *o = chk(p, 0, false, "realloc"); u64 m = std::min(n, o->size); memCopy(q, p, m); heapFree(p, 0); }
  B.ret = Val(q);
}
static void b_memcpy(BCtx &B) { u64 n = cARG(B, 2), d = cARG(B, 0), s = cARG(B, 1); memCopy(d, s, n); B.ret = Val(d); }
static void doMemset(u64 d, const Val &v, u64 n) {
  if (!n) return;
  chk(d, n, true, "write"); Buf *b = S->mem.mutBuf(d >> 32); u64 o = d & 0xffffffffu;
  if (!v.e) { memset(b->b + o, (int)(v.c & 255), n); memset(b->tag + o, 0, n); return; }
  E x = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; ++i) putByte(b, o + i, x);
}
static void b_memset(BCtx &B) { u64 n = cARG(B, 2), d = cARG(B, 0); doMemset(d, ARG(1), n); B.ret = Val(d); }
static E byteAt(u64 a) { chk(a, 1, false, "read"); return toE(readAt(a >> 32, a & 0xffffffffu, 1, 8), 8); }
static void b_memcmp(BCtx &B) {
  u64 n = cARG(B, 2), p = cARG(B, 0), q = cARG(B, 1);
  if (!n) { B.ret = Val(0ull); return; }
  chk(p, n, false, "read"); chk(q, n, false, "read");
  E r = mkConst(0, 32);
  // from the last byte to the first; stop early at a definite difference
  u64 m = n; for (u64 i = 0; i < n; ++i) { E x = byteAt(p + i), y = byteAt(q + i); if (isC(x) && isC(y) && x->v != y->v) { m = i + 1; break; } }
  for (u64 i = m; i-- > 0;) {
    E x = byteAt(p + i), y = byteAt(q + i); if (x == y) continue;
    r = mkIte(mkBin(K_EQ, x, y), r, mkIte(mkBin(K_ULT, x, y), mkConst((u64)-1, 32), mkConst(1, 32)));
  }
  B.ret = fromE(r);
}
static void b_bcmp(BCtx &B) {
  u64 n = cARG(B, 2), p = cARG(B, 0), q = cARG(B, 1);
  if (n) { chk(p, n, false, "read"); chk(q, n, false, "read"); }
  E eq = mkTrue(); for (u64 i = 0; i < n; ++i) eq = mkBin(K_AND, eq, mkBin(K_EQ, byteAt(p + i), byteAt(q + i)));
  B.ret = fromE(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
}
static void b_strlen(BCtx &B) { u64 p = cARG(B, 0); for (u64 i = 0;; ++i) { E x = byteAt(p + i); if (decide(mkBin(K_EQ, x, mkConst(0, 8)))) { B.ret = Val(i); return; } } }
static void b_memchr(BCtx &B) {
  u64 p = cARG(B, 0), n = cARG(B, 2); E c = mkExtract(toE(ARG(1), 32), 0, 8);
  for (u64 i = 0; i < n; ++i) { E x = byteAt(p + i); if (decide(mkBin(K_EQ, x, c))) { B.ret = Val(p + i); return; } }
  B.ret = Val(0ull);
}
// ---- exceptions
static void b_exc_alloc(BCtx &B) { u64 a = heapAlloc(cARG(B, 0), "exception", 3); S->excs.push_back({a, 0, 0, 0, a}); B.ret = Val(a); }
static void b_exc_free(BCtx &B) { u64 a = cARG(B, 0); for (size_t i = 0; i < S->excs.size(); ++i) if (S->excs[i].obj == a) { S->excs.erase(S->excs.begin() + i); break; } heapFree(a, 3); }
static void b_throw(BCtx &B) { u64 o = cARG(B, 0); ExcRec *x = excOf(o); x->ti = cARG(B, 1); x->dtor = cARG(B, 2); B.jump = true; doThrow(o); }
static void b_begin_catch(BCtx &B) { u64 o = cARG(B, 0); ExcRec *x = excOf(o); if (!x) unsup("begin_catch"); x->handlers++; S->th[S->cur].caught.push_back(o); B.ret = Val(x->adjusted); }
static void b_end_catch(BCtx &B) {
  auto &c = S->th[S->cur].caught; if (c.empty()) return; u64 o = c.back(); c.pop_back(); ExcRec *x = excOf(o);
  if (x && x->handlers > 0 && --x->handlers == 0) { for (size_t i = 0; i < S->excs.size(); ++i) if (S->excs[i].obj == o) { S->excs.erase(S->excs.begin() + i); break; } }
}
static void b_rethrow(BCtx &B) { auto &c = S->th[S->cur].caught; if (c.empty()) err("rethrow without exception"); u64 o = c.back(); excOf(o)->handlers++; B.jump = true; doThrow(o); }
static void b_uncaught(BCtx &B) { int n = 0; for (auto &x : S->excs) if (x.ti && !x.handlers) ++n; B.ret = Val((u64)n); }
static void b_terminate(BCtx &) { err("std::terminate called"); }
static void b_abort(BCtx &) { err("abort called"); }
static void b_pure(BCtx &) { err("pure virtual function called"); }
static void b_zero(BCtx &B) { B.ret = Val(0ull); }
static void b_guard_acq(BCtx &B) { u64 g = cARG(B, 0); Val v = memRead(Val(g), 1, 8); B.ret = Val((u64)(evalV(v) == 0)); }
static void b_guard_rel(BCtx &B) { memWrite(Val(cARG(B, 0)), 1, Val(1ull), 8); }
static void b_dyncast(BCtx &B) {
  u64 p = cARG(B, 0), dst = cARG(B, 2);
  if (!p) { B.ret = Val(0ull); return; }
  u64 vp = rd64(p); i64 ott = (i64)rd64(vp - 16); u64 ti = rd64(vp - 8); i64 off;
  if (tiBase(ti, dst, off)) B.ret = Val(p + ott + off); else B.ret = Val(0ull);
}
// ---- math on doubles
static double dOf(const Val &v) { if (!isConstV(v)) unsup("symbolic argument of a math function"); double d; u64 c = v.e ? (u64)v.e->v : v.c; memcpy(&d, &c, 8); return d; }
static Val ofD(double d) { u64 x; memcpy(&x, &d, 8); return Val(x); }
static long double ldv(const Val &v) { if (!isConstV(v)) unsup("symbolic long double"); u128 x = v.e ? v.e->v : v.c; long double r = 0; memcpy(&r, &x, 10); return r; }
static Val ldr(long double d) { u128 x = 0; memcpy(&x, &d, 10); return Val(mkConst(x, 80)); }
#define MATH1(n) static void b_##n(BCtx &B) { B.ret = ofD(n(dOf(ARG(0)))); } static void b_##n##l(BCtx &B) { B.ret = ldr(n##l(ldv(ARG(0)))); }
MATH1(log) MATH1(log2) MATH1(log10) MATH1(exp) MATH1(sqrt) MATH1(cbrt)
static void b_pow(BCtx &B) { B.ret = ofD(pow(dOf(ARG(0)), dOf(ARG(1)))); }
static void b_fmod(BCtx &B) { B.ret = ofD(fmod(dOf(ARG(0)), dOf(ARG(1)))); }
static void b_ldexp(BCtx &B) { B.ret = ofD(ldexp(dOf(ARG(0)), (int)cARG(B, 1, 32))); }
static Val rnd(const Val &a, int mode, unsigned w) { return fromE(mkFp(K_FRINT, toE(a, w), mkConst(mode, 8), w)); }
static void b_floor(BCtx &B) { B.ret = rnd(ARG(0), 2, 64); }
static void b_ceil(BCtx &B) { B.ret = rnd(ARG(0), 3, 64); }
static void b_round(BCtx &B) { B.ret = rnd(ARG(0), 1, 64); }
static void b_trunc(BCtx &B) { B.ret = rnd(ARG(0), 4, 64); }
static void b_floorf(BCtx &B) { B.ret = rnd(ARG(0), 2, 32); }
static void b_ceilf(BCtx &B) { B.ret = rnd(ARG(0), 3, 32); }
static void b_roundf(BCtx &B) { B.ret = rnd(ARG(0), 1, 32); }
static void b_lround(BCtx &B) { B.ret = fromE(mkFp(K_FTOSI, toE(rnd(ARG(0), 1, 64), 64), nullptr, 64)); }
static void b_lroundf(BCtx &B) { B.ret = fromE(mkFp(K_FTOSI, toE(rnd(ARG(0), 1, 32), 32), nullptr, 64)); }
static void b_lrint(BCtx &B) { B.ret = fromE(mkFp(K_FTOSI, toE(rnd(ARG(0), 0, 64), 64), nullptr, 64)); }

// ---- harness primitives
static void b_make(BCtx &B) {
  u64 p = cARG(B, 0), n = cARG(B, 1); Str nm = readStr(cARG(B, 2));
  InRec r; r.name = nm;
  if (n) {
    chk(p, n, true, "write"); Buf *b = S->mem.mutBuf(p >> 32); u64 o = p & 0xffffffffu;
    // scalars become one variable, buffers one variable per byte
    if (n == 2 || n == 4 || n == 8) { E v = mkVar(nm, n * 8, true); for (u64 i = 0; i < n; ++i) { E x = mkExtract(v, i * 8, 8); putByte(b, o + i, x); r.bytes.push_back(x); } }
    else for (u64 i = 0; i < n; ++i) { E x = mkVar(nm, 8, true); putByte(b, o + i, x); r.bytes.push_back(x); }
  }
  S->in.push_back(r);
}
static void b_makebytes(BCtx &B) {
  u64 p = cARG(B, 0), n = cARG(B, 1); Str nm = readStr(cARG(B, 2)); InRec r; r.name = nm;
  if (n) { chk(p, n, true, "write"); Buf *b = S->mem.mutBuf(p >> 32); u64 o = p & 0xffffffffu; for (u64 i = 0; i < n; ++i) { E x = mkVar(nm, 8, true); putByte(b, o + i, x); r.bytes.push_back(x); } }
  S->in.push_back(r);
}
static E truth(const Val &v, unsigned w) { return mkNot(mkBin(K_EQ, toE(v, w), mkConst(0, w))); }
static unsigned awOf(BCtx &B, size_t i) { return (unsigned)B.I->argw[i].first; }
static void b_assume(BCtx &B) {
  E c = truth(ARG(0), awOf(B, 0));
  if (isC(c)) { if (!c->v) throw PathEnd{PE_INFEAS, ""}; return; }
  if (evalExpr(c, S->model)) { addPC(c); return; }
  Model m; Res r = checkSat(S->pc, c, S->model, m);
  if (r == Res::Unknown) { ++g_unknownBranches; throw PathEnd{PE_INFEAS, ""}; }
  if (r == Res::Unsat) throw PathEnd{PE_INFEAS, ""};
  S->model = m; addPC(c);
}
static void b_assert(BCtx &B) {
  E c = truth(ARG(0), awOf(B, 0)); Str msg = readStr(cARG(B, 1));
  ++w_asserts;
  if (isC(c)) { if (!c->v) err("assertion failed: " + msg); return; }
  if (evalExpr(c, S->model)) {
    E nc = mkNot(c); Model m; Res r = checkSat(S->pc, nc, S->model, m);
    if (r == Res::Unsat) { ++w_decided; return; }
    if (r == Res::Unknown) { ++g_unknownBranches; return; }
    // report the violating assignment, continue with the assertion assumed
    ++w_decided;
    Model keep = S->model; std::vector<E> keepPc = S->pc; S->model = m; S->pc.push_back(nc);
    ++w_paths[PE_ERR]; report("error", "assertion failed: " + msg);
    S->model = keep; S->pc = keepPc; addPC(c); return;
  }
  ++w_decided;
  ++w_paths[PE_ERR]; report("error", "assertion failed: " + msg);
  Model m; Res r = checkSat(S->pc, c, S->model, m);
  if (r == Res::Sat) { S->model = m; addPC(c); return; }
  throw PathEnd{PE_INFEAS, ""};
}
static void b_fail(BCtx &B) { err("assertion failed: " + readStr(cARG(B, 0))); }
static void b_unsupported(BCtx &B) { unsup(readStr(cARG(B, 0))); }
static void b_reach(BCtx &B) { Str s = readStr(cARG(B, 0)); auto v = std::make_shared<std::vector<Str>>(); if (S->reach) *v = *S->reach; v->push_back(s); S->reach = v; }
static void b_choose(BCtx &B) { B.ret = Val(cARG(B, 0)); }
static void b_observe(BCtx &B) {
  u64 p = cARG(B, 0), n = cARG(B, 1); InRec r; r.name = readStr(cARG(B, 2));
  if (n) chk(p, n, false, "read");
  for (u64 i = 0; i < n; ++i) r.bytes.push_back(byteAt(p + i));
  S->obs.push_back(r);
}
static void b_one(BCtx &B) { B.ret = Val(1ull); }
static void b_issym(BCtx &B) { B.ret = Val((u64)!isConstV(ARG(0))); }
static void b_eval(BCtx &B) { B.ret = Val(evalV(ARG(0))); } // value under the current model (no constraint)
static void b_exit(BCtx &) { throw PathEnd{PE_OK, ""}; }
static void b_infeas(BCtx &) { throw PathEnd{PE_INFEAS, ""}; }
static void b_bound(BCtx &B) { Str n = readStr(cARG(B, 0)); u64 d = cARG(B, 1); auto it = g_args.find(n); B.ret = Val(it == g_args.end() ? d : it->second); }
static void b_print(BCtx &B) { if (o_trace) { u64 p = cARG(B, 0); fprintf(stderr, "[sx] %s\n", readStr(p).c_str()); } }
static void b_fmtd(BCtx &B) { // sx_host_fmtd(buf, spec, double): the host's own formatting of a concrete value
  u64 q = cARG(B, 0); Str spec = readStr(cARG(B, 1)); double d = dOf(ARG(2)); char t[512]; int k = snprintf(t, 512, spec.c_str(), d);
  for (int i = 0; i <= k; ++i) memWrite(Val(q + i), 1, Val((u64)(uint8_t)t[i]), 8);
  B.ret = Val((u64)k);
}
static void b_strtod(BCtx &B) { // sx_host_strtod(s, &v): symbolic text is split case by case
  u64 p = cARG(B, 0), q = cARG(B, 1); Str t;
  for (u64 i = 0; i < 512; ++i) { chk(p + i, 1, false, "read"); u64 c = concretize(readAt((p + i) >> 32, (p + i) & 0xffffffffu, 1, 8), 8); if (!c) break; t += (char)c; if (!strchr("0123456789+-.eExXabcdefABCDEFinfINFnaNA pP\t\n", (char)c)) break; }
  char *e; double d = strtod(t.c_str(), &e); u64 x; memcpy(&x, &d, 8); memWrite(Val(q), 8, Val(x), 64); B.ret = Val((u64)(e - t.c_str()));
}
static void b_kvget(BCtx &B) { u64 k = cARG(B, 0); auto it = S->kv.find(k); B.ret = Val(it == S->kv.end() ? 0 : it->second); }
static void b_kvset(BCtx &B) { u64 k = cARG(B, 0); S->kv[k] = cARG(B, 1); }

// ---- MD5: uninterpreted but functional for symbolic input, the real function for concrete input
static void md5real(const uint8_t *in, u64 n, uint8_t *out) {
  static const int r[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  static uint32_t k[64]; static bool init = false; if (!init) { for (int i = 0; i < 64; ++i) k[i] = (uint32_t)(fabs(sin((double)(i + 1))) * 4294967296.0); init = true; }
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  std::vector<uint8_t> m(in, in + n); m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); u64 bl = n * 8; for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bl >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; memcpy(w, &m[o], 64); uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) { uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; } uint32_t t = d; d = c; c = b; uint32_t x = a + f + k[i] + w[g]; b = b + ((x << r[i]) | (x >> (32 - r[i]))); a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  memcpy(out, h, 16);
}
static void b_md5(BCtx &B) { // sx_md5(in, n, out)
  u64 p = cARG(B, 0), n = cARG(B, 1), q = cARG(B, 2);
  Md5Rec rec; bool conc = true;
  if (n) chk(p, n, false, "read");
  for (u64 i = 0; i < n; ++i) { E x = byteAt(p + i); rec.in.push_back(x); if (!isC(x)) conc = false; }
  chk(q, 16, true, "write");
  for (auto &o : S->md5) if (o.in == rec.in) { Buf *b = S->mem.mutBuf(q >> 32); for (int i = 0; i < 16; ++i) putByte(b, (q & 0xffffffffu) + i, o.out[i]); return; }
  rec.real = conc;
  if (conc) { std::vector<uint8_t> in; for (E e : rec.in) in.push_back((uint8_t)e->v); uint8_t o[16]; md5real(in.data(), in.size(), o); for (int i = 0; i < 16; ++i) rec.out.push_back(mkConst(o[i], 8)); }
  else { E hi = mkVar("md5", 64, true), lo = mkVar("md5", 64, true); for (int i = 0; i < 8; ++i) rec.out.push_back(mkExtract(lo, i * 8, 8)); for (int i = 0; i < 8; ++i) rec.out.push_back(mkExtract(hi, i * 8, 8)); }
  // functional consistency with the earlier applications
  std::vector<E> cs;
  for (auto &o : S->md5) {
    if (o.in.size() != rec.in.size() || (o.real && conc)) continue;
    E ie = mkTrue(), oe = mkTrue(); for (u64 i = 0; i < n; ++i) ie = mkBin(K_AND, ie, mkBin(K_EQ, o.in[i], rec.in[i])); for (int i = 0; i < 16; ++i) oe = mkBin(K_AND, oe, mkBin(K_EQ, o.out[i], rec.out[i]));
    E c = mkBin(K_OR, mkNot(ie), oe); if (!isTrue(c)) cs.push_back(c);
  }
  E all = mkTrue(); for (E c : cs) all = mkBin(K_AND, all, c);
  if (!isTrue(all)) {
    if (!evalExpr(all, S->model)) { Model m; Res r = checkSat(S->pc, all, S->model, m); if (r != Res::Sat) { if (r == Res::Unknown) ++g_unknownBranches; throw PathEnd{PE_INFEAS, ""}; } S->model = m; }
    for (E c : cs) addPC(c);
  }
  S->md5.push_back(rec);
  Buf *b = S->mem.mutBuf(q >> 32); for (int i = 0; i < 16; ++i) putByte(b, (q & 0xffffffffu) + i, rec.out[i]);
}

// ---- threads
static void switchTo(State *s, int t, E var, int idx) { if (var) { s->pc.push_back(mkBin(K_EQ, var, mkConst((u64)idx, 8))); u64 id = (u64)var->v; if (s->model.size() <= id) s->model.resize(id + 1, 0); s->model[id] = idx; } s->cur = t; }
static void pickThread(bool canContinue) {
  // choices: continue the current thread; any other runnable thread (a preemption when the current one could go on); timed waiters may time out
  std::vector<int> ch;
  if (canContinue) ch.push_back(S->cur);
  if (!canContinue || S->preempt > 0) for (int i = 0; i < (int)S->th.size(); ++i) if (i != S->cur && S->th[i].stat == TS_RUN) ch.push_back(i);
  bool timeout = false;
  if (ch.empty()) { for (int i = 0; i < (int)S->th.size(); ++i) if (S->th[i].stat == TS_BLOCKED && S->th[i].timed) ch.push_back(i); timeout = !ch.empty(); }
  if (ch.empty()) err("deadlock: no thread can run");
  if (timeout) for (int i : ch) (void)i;
  E var = nullptr;
  if (ch.size() > 1) { var = mkVar("sched", 8, true); InRec r; r.name = "sched"; r.bytes.push_back(var); S->in.push_back(r); }
  for (size_t k = 1; k < ch.size(); ++k) {
    State *n = new State(*S); ++g_forks; if (canContinue) --n->preempt;
    if (timeout) { n->th[ch[k]].stat = TS_RUN; n->th[ch[k]].timedOut = true; }
    switchTo(n, ch[k], var, (int)k); pending.push_back(n);
  }
  if (timeout) { S->th[ch[0]].stat = TS_RUN; S->th[ch[0]].timedOut = true; }
  switchTo(S, ch[0], var, 0);
  F = top();
}
static void threadEnd() { S->th[S->cur].stat = TS_DONE; u64 key = 0x7000000000ull + S->cur; for (auto &t : S->th) if (t.stat == TS_BLOCKED && t.key == key) t.stat = TS_RUN; pickThread(false); }
static void b_thcreate(BCtx &B) { // sx_thread_create(fn, arg) -> id
  u64 fn = cARG(B, 0); Val arg = ARG(1); u64 id = fn >> 32; if (id >= funcById.size() || !funcById[id]) unsup("thread function");
  int nt = (int)S->th.size(); S->th.emplace_back(); if (nt > 60) unsup("more than 60 threads");
  int me = S->cur; S->cur = nt; std::vector<Val> a{arg}; pushFrame(getCF(funcById[id]->F), a); S->cur = me; F = top();
  B.ret = Val((u64)nt);
}
static void b_self(BCtx &B) { B.ret = Val((u64)S->cur); }
static void b_yield(BCtx &B) { B.jump = true; finishCall1(Val(0ull)); pickThread(true); }
static void b_block(BCtx &B) { // sx_block(key, timed): blocks until woken; returns nothing
  u64 k = cARG(B, 0), timed = cARG(B, 1); B.jump = true; finishCall1(Val(0ull));
  Thread &t = S->th[S->cur]; t.stat = TS_BLOCKED; t.key = k; t.timed = timed; t.timedOut = false; pickThread(false);
}
static void b_timedout(BCtx &B) { B.ret = Val((u64)S->th[S->cur].timedOut); }
static void b_wake(BCtx &B) { // sx_wake(key, all)
  u64 k = cARG(B, 0), all = cARG(B, 1);
  std::vector<int> w; for (int i = 0; i < (int)S->th.size(); ++i) if (S->th[i].stat == TS_BLOCKED && S->th[i].key == k) w.push_back(i);
  if (all || w.size() <= 1) { for (int i : w) S->th[i].stat = TS_RUN; return; }
  // which waiter is woken is a scheduling choice
  E var = mkVar("wake", 8, true); InRec r; r.name = "wake"; r.bytes.push_back(var); S->in.push_back(r);
  B.jump = true; finishCall1(Val(0ull));
  for (size_t j = 1; j < w.size(); ++j) { State *n = new State(*S); ++g_forks; n->th[w[j]].stat = TS_RUN; switchTo(n, n->cur, var, (int)j); pending.push_back(n); }
  S->th[w[0]].stat = TS_RUN; switchTo(S, S->cur, var, 0); F = top();
}
static void b_thdone(BCtx &B) { u64 t = cARG(B, 0); B.ret = Val((u64)(t < S->th.size() && S->th[t].stat == TS_DONE)); }

static void initBuiltins() {
  auto &b = builtins;
  for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) b[n] = b_new;
  for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) b[n] = b_newa;
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) b[n] = b_del;
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) b[n] = b_dela;
  b["malloc"] = b_malloc; b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["free"] = b_free;
  b["memcpy"] = b_memcpy; b["memmove"] = b_memcpy; b["memset"] = b_memset; b["memcmp"] = b_memcmp; b["bcmp"] = b_bcmp; b["strlen"] = b_strlen; b["memchr"] = b_memchr;
  b["__cxa_allocate_exception"] = b_exc_alloc; b["__cxa_free_exception"] = b_exc_free; b["__cxa_throw"] = b_throw; b["__cxa_begin_catch"] = b_begin_catch; b["__cxa_end_catch"] = b_end_catch; b["__cxa_rethrow"] = b_rethrow;
  b["_ZSt19uncaught_exceptionsv"] = b_uncaught; b["_ZSt18uncaught_exceptionv"] = b_uncaught; b["_ZSt9terminatev"] = b_terminate; b["abort"] = b_abort; b["__cxa_pure_virtual"] = b_pure;
  b["__cxa_atexit"] = b_zero; b["__cxa_thread_atexit"] = b_zero; b["__cxa_guard_acquire"] = b_guard_acq; b["__cxa_guard_release"] = b_guard_rel; b["__cxa_guard_abort"] = b_zero; b["__dynamic_cast"] = b_dyncast;
#define BM(n) b[#n] = b_##n; b[#n "l"] = b_##n##l;
  BM(log) BM(log2) BM(log10) BM(exp) BM(sqrt) BM(cbrt)
  b["pow"] = b_pow; b["fmod"] = b_fmod; b["ldexp"] = b_ldexp; b["floor"] = b_floor; b["ceil"] = b_ceil; b["round"] = b_round; b["trunc"] = b_trunc; b["floorf"] = b_floorf; b["ceilf"] = b_ceilf; b["roundf"] = b_roundf; b["lround"] = b_lround; b["llround"] = b_lround; b["lroundf"] = b_lroundf; b["llroundf"] = b_lroundf; b["lrint"] = b_lrint;
  b["sx_make"] = b_make; b["sx_make_bytes"] = b_makebytes; b["sx_assume"] = b_assume; b["sx_assert_"] = b_assert; b["sx_fail"] = b_fail; b["sx_unsupported"] = b_unsupported; b["sx_reach"] = b_reach; b["sx_choose"] = b_choose; b["sx_observe"] = b_observe; b["sx_symbolic"] = b_one; b["sx_is_symbolic"] = b_issym; b["sx_eval"] = b_eval; b["sx_end"] = b_exit; b["sx_prune"] = b_infeas; b["sx_bound"] = b_bound; b["sx_print"] = b_print; b["sx_kv_get"] = b_kvget; b["sx_kv_set"] = b_kvset; b["sx_md5"] = b_md5; b["sx_host_fmtd"] = b_fmtd; b["sx_host_strtod"] = b_strtod;
  b["sx_thread_create"] = b_thcreate; b["sx_self"] = b_self; b["sx_yield"] = b_yield; b["sx_block"] = b_block; b["sx_timed_out"] = b_timedout; b["sx_wake"] = b_wake; b["sx_thread_done"] = b_thdone;
}

// ---- intrinsics
static void intrinsic(Ins &I) {
  auto A = [&](int i) { return ov(I.ops[i]); };
  unsigned w = I.w; Val r;
  auto iw = [&](int i) { return (unsigned)I.argw[i].first; };
  auto fin = [&](const Val &v) { finishCall1(v); };
  switch (I.iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(A(2), iw(2)), d = concretize(A(0), 64), s = concretize(A(1), 64); memCopy(d, s, n); return fin(Val()); }
  case Intrinsic::memset: { u64 n = concretize(A(2), iw(2)), d = concretize(A(0), 64); Val v = A(1); doMemset(d, v, n); return fin(Val()); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_end: return fin(Val());
  case Intrinsic::invariant_start: case Intrinsic::stacksave: return fin(Val(0ull));
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: err("trap");
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return fin(A(0));
  case Intrinsic::is_constant: return fin(Val(0ull));
  case Intrinsic::objectsize: return fin(Val((u64)-1 & mask64(w)));
  case Intrinsic::eh_typeid_for: { Val v = A(0); return fin(Val(v.c == 0 ? 1ull : (v.c >> 32) & 0xffffffffu)); }
  case Intrinsic::ctpop: { Val a = A(0); if (!a.e) return fin(Val((u64)__builtin_popcountll(a.c))); E s = mkConst(0, w); for (unsigned i = 0; i < w; ++i) s = mkBin(K_ADD, s, mkZExt(mkExtract(a.e, i, 1), w)); return fin(fromE(s)); }
  case Intrinsic::ctlz: case Intrinsic::cttz: {
    E a = toE(A(0), w); E s = mkConst(w, w);
    if (I.iid == Intrinsic::ctlz) { for (unsigned i = 0; i < w; ++i) s = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), s); } else { for (unsigned i = w; i-- > 0;) s = mkIte(mkExtract(a, i, 1), mkConst(i, w), s); }
    return fin(fromE(s)); }
  case Intrinsic::bswap: { E a = toE(A(0), w); E s = nullptr; for (unsigned i = 0; i < w; i += 8) { E x = mkExtract(a, i, 8); s = s ? mkConcat(s, x) : x; } return fin(fromE(s)); }
  case Intrinsic::bitreverse: { E a = toE(A(0), w); E s = nullptr; for (unsigned i = 0; i < w; ++i) { E x = mkExtract(a, i, 1); s = s ? mkConcat(s, x) : x; } return fin(fromE(s)); }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    E a = toE(A(0), w), b = toE(A(1), w); Val sv = A(2);
    if (!isConstV(sv)) { E s = mkBin(K_UREM, toE(sv, w), mkConst(w, w)); E c = mkConcat(a, b); if (2 * w > 128) unsup("wide funnel shift"); E ss = mkZExt(s, 2 * w); return fin(fromE(I.iid == Intrinsic::fshl ? mkExtract(mkBin(K_SHL, c, ss), w, w) : mkExtract(mkBin(K_LSHR, c, ss), 0, w))); }
    unsigned s = (unsigned)(toE(sv, w)->v % w);
    if (s == 0) return fin(fromE(I.iid == Intrinsic::fshl ? a : b));
    if (I.iid == Intrinsic::fshr) s = w - s;
    return fin(fromE(mkConcat(mkExtract(a, 0, w - s), mkExtract(b, w - s, s)))); }
  case Intrinsic::umin: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkIte(mkBin(K_ULT, a, b), a, b))); }
  case Intrinsic::umax: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkIte(mkBin(K_ULT, a, b), b, a))); }
  case Intrinsic::smin: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkIte(mkBin(K_SLT, a, b), a, b))); }
  case Intrinsic::smax: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkIte(mkBin(K_SLT, a, b), b, a))); }
  case Intrinsic::abs: { E a = toE(A(0), w); return fin(fromE(mkIte(mkBin(K_SLT, a, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), a), a))); }
  case Intrinsic::usub_sat: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkIte(mkBin(K_ULT, a, b), mkConst(0, w), mkBin(K_SUB, a, b)))); }
  case Intrinsic::uadd_sat: { E a = toE(A(0), w), b = toE(A(1), w); E s = mkBin(K_ADD, a, b); return fin(fromE(mkIte(mkBin(K_ULT, s, a), mkConst(maskw(w), w), s))); }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = iw(0); if (ww > 64) unsup("wide overflow op");
    E a = toE(A(0), ww), b = toE(A(1), ww); bool sg = I.iid == Intrinsic::sadd_with_overflow || I.iid == Intrinsic::ssub_with_overflow || I.iid == Intrinsic::smul_with_overflow;
    Kind k = (I.iid == Intrinsic::uadd_with_overflow || I.iid == Intrinsic::sadd_with_overflow) ? K_ADD : (I.iid == Intrinsic::usub_with_overflow || I.iid == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
    unsigned xw = 2 * ww; E xa = sg ? mkSExt(a, xw) : mkZExt(a, xw), xb = sg ? mkSExt(b, xw) : mkZExt(b, xw); E lo = mkBin(k, a, b), o;
    if (k == K_ADD && !sg) o = mkBin(K_ULT, lo, a); else if (k == K_SUB && !sg) o = mkBin(K_ULT, a, b);
    else { E x = mkBin(k, xa, xb); o = mkNot(mkBin(K_EQ, sg ? mkSExt(mkExtract(x, 0, ww), xw) : mkZExt(mkExtract(x, 0, ww), xw), x)); }
    F->regs[I.dst] = fromE(lo); F->regs[I.dst + 1] = fromE(o);
    if (I.op == I_INVOKE) takeEdge(I.edges[0]); else ++F->ip;
    return; }
  case Intrinsic::vastart: {
    u64 p = concretize(A(0), 64); size_t n = F->varargs.size(); u64 id = newObj(S, n * 8 + 8, O_STACK, "varargs", true); F->allocas.push_back((uint32_t)id);
    // F->varargs are flattened values; each takes one 8-byte slot
    for (size_t i = 0; i < n; ++i) { Val v = F->varargs[i]; if (v.e && v.e->w > 64) unsup("wide vararg"); if (v.e && v.e->w < 64) v = fromE(mkZExt(v.e, 64)); writeAt(id, i * 8, 8, v, 64); }
    memWrite(Val(p), 4, Val(48ull), 32); memWrite(Val(p + 4), 4, Val(176ull), 32); memWrite(Val(p + 8), 8, Val(id << 32), 64); memWrite(Val(p + 16), 8, Val(0ull), 64);
    return fin(Val()); }
  case Intrinsic::vacopy: { u64 d = concretize(A(0), 64), s = concretize(A(1), 64); memCopy(d, s, 24); return fin(Val()); }
  case Intrinsic::fabs: { if (w == 80) return fin(ldr(fabsl(ldv(A(0))))); E a = toE(A(0), w); return fin(fromE(mkBin(K_AND, a, mkConst(mask64(w - 1), w)))); }
  case Intrinsic::floor: return fin(rnd(A(0), 2, w));
  case Intrinsic::ceil: return fin(rnd(A(0), 3, w));
  case Intrinsic::round: return fin(rnd(A(0), 1, w));
  case Intrinsic::trunc: return fin(rnd(A(0), 4, w));
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fin(rnd(A(0), 0, w));
  case Intrinsic::fmuladd: case Intrinsic::fma: { E m = mkFp(K_FMUL, toE(A(0), w), toE(A(1), w), w); return fin(fromE(mkFp(K_FADD, m, toE(A(2), w), w))); }
  case Intrinsic::sqrt: if (w == 64) return fin(ofD(sqrt(dOf(A(0))))); unsup("sqrt");
  case Intrinsic::log: return fin(w == 80 ? ldr(logl(ldv(A(0)))) : ofD(log(dOf(A(0)))));
  case Intrinsic::log2: return fin(w == 80 ? ldr(log2l(ldv(A(0)))) : ofD(log2(dOf(A(0)))));
  case Intrinsic::exp: return fin(ofD(exp(dOf(A(0)))));
  case Intrinsic::pow: return fin(ofD(pow(dOf(A(0)), dOf(A(1)))));
  case Intrinsic::copysign: { E a = toE(A(0), w), b = toE(A(1), w); return fin(fromE(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)))); }
  case Intrinsic::minnum: case Intrinsic::maxnum: { E a = toE(A(0), w), b = toE(A(1), w); E lt = mkFp(K_FOLT, a, b, 1); return fin(fromE(I.iid == Intrinsic::minnum ? mkIte(lt, a, b) : mkIte(lt, b, a))); }
  case Intrinsic::lround: case Intrinsic::llround: { unsigned x = iw(0); return fin(fromE(mkFp(K_FTOSI, toE(rnd(A(0), 1, x), x), nullptr, w))); }
  case Intrinsic::lrint: case Intrinsic::llrint: { unsigned x = iw(0); return fin(fromE(mkFp(K_FTOSI, toE(rnd(A(0), 0, x), x), nullptr, w))); }
  case Intrinsic::ptrmask: return fin(fromE(mkBin(K_AND, toE(A(0), 64), toE(A(1), 64))));
  default: { Str s; raw_string_ostream os(s); os << *I.I; unsup("intrinsic " + os.str()); }
  }
}
static void doCall(Ins &I) {
  if (I.iid) { intrinsic(I); return; }
  Function *f = I.cal; BFn bi = I.bi;
  if (!f) {
    u64 a = concretize(ov(I.ops[I.imm]), 64); u64 id = a >> 32;
    if (!a) err("call through a null function pointer");
    if ((a & 0xffffffffu) || id >= funcById.size() || !funcById[id]) err("call through an invalid function pointer");
    static std::map<u64, Function *> memo; auto &m = memo[id]; if (!m) m = overrideOf(funcById[id]->F); f = m;
    if (f->isDeclaration()) { auto it = builtins.find(f->getName().str()); if (it != builtins.end()) bi = it->second; }
  }
  std::vector<Val> args; args.reserve(I.imm);
  for (size_t i = 0; i < I.imm; ++i) args.push_back(ov(I.ops[i]));
  if (f->isDeclaration()) {
    if (!bi) unsup("external function " + demangle(f->getName().str()) + " [" + f->getName().str() + "]");
    BCtx B; B.a = &args; B.I = &I; bi(B); if (B.jump) return; finishCall1(B.ret); return;
  }
  std::vector<uint32_t> bv;
  for (auto &b : I.byval) { u64 s = concretize(args[b.first], 64); u64 id = newObj(S, b.second, O_STACK, "byval", true); memCopy(id << 32, s, b.second); args[b.first] = Val(id << 32); bv.push_back((uint32_t)id); }
  pushFrame(getCF(f), args);
  for (auto x : bv) F->allocas.push_back(x);
}
