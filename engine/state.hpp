// Program state of the symbolic executor: memory objects (copy on write), threads, frames, path condition.
#pragma once
#include "expr.hpp"
#include <llvm/IR/Function.h>

// ---------------------------------------------------------------- memory
enum : uint8_t { T_CONC = 0, T_UNINIT = 1, T_SYM = 2 };
struct Buf {
  int rc = 1; u64 size; uint8_t *b; uint8_t *tag; E *sym = nullptr;
  explicit Buf(u64 n, bool uninit) : size(n) {
    b = (uint8_t *)malloc(2 * n + 8); tag = b + n;
    if (uninit) { memset(tag, T_UNINIT, n); memset(b, 0, n); } else memset(b, 0, 2 * n);
  }
  Buf(const Buf &o) : size(o.size) {
    b = (uint8_t *)malloc(2 * size + 8); tag = b + size; memcpy(b, o.b, 2 * size);
    if (o.sym) { sym = (E *)malloc(size * sizeof(E)); memcpy(sym, o.sym, size * sizeof(E)); }
  }
  ~Buf() { free(b); free(sym); }
  void needSym() { if (!sym) sym = (E *)calloc(size ? size : 1, sizeof(E)); }
};
enum : uint8_t { O_NONE = 0, O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_EXTERN };
struct Obj {
  Buf *buf = nullptr; u64 size = 0; uint8_t kind = O_NONE; bool freed = false, ro = false; uint8_t akind = 0;
  const char *name = "";
};
struct Leaf { int rc = 1; Obj o[32];
  Leaf() {}
  Leaf(const Leaf &l) { for (int i = 0; i < 32; ++i) { o[i] = l.o[i]; if (o[i].buf) ++o[i].buf->rc; } }
  ~Leaf() { for (auto &x : o) if (x.buf && --x.buf->rc == 0) delete x.buf; } };
struct Mid { int rc = 1; Leaf *l[128];
  Mid() { memset(l, 0, sizeof l); }
  Mid(const Mid &m) { for (int i = 0; i < 128; ++i) { l[i] = m.l[i]; if (l[i]) ++l[i]->rc; } }
  ~Mid() { for (auto *x : l) if (x && --x->rc == 0) delete x; } };
struct ObjTab {
  std::vector<Mid *> root;
  ObjTab() {}
  ObjTab(const ObjTab &o) : root(o.root) { for (auto *m : root) if (m) ++m->rc; }
  ObjTab &operator=(const ObjTab &) = delete;
  ~ObjTab() { for (auto *m : root) if (m && --m->rc == 0) delete m; }
  const Obj *get(u64 id) const {
    u64 r = id >> 12; if (r >= root.size() || !root[r]) return nullptr;
    Leaf *l = root[r]->l[(id >> 5) & 127]; if (!l) return nullptr;
    return &l->o[id & 31];
  }
  Obj *mut(u64 id) {
    u64 r = id >> 12; if (r >= root.size()) root.resize(r + 1, nullptr);
    Mid *&m = root[r];
    if (!m) m = new Mid(); else if (m->rc > 1) { --m->rc; m = new Mid(*m); }
    Leaf *&l = m->l[(id >> 5) & 127];
    if (!l) l = new Leaf(); else if (l->rc > 1) { --l->rc; l = new Leaf(*l); }
    return &l->o[id & 31];
  }
  Buf *mutBuf(u64 id) {
    Obj *o = mut(id);
    if (o->buf->rc > 1) { --o->buf->rc; o->buf = new Buf(*o->buf); }
    return o->buf;
  }
};

// ---------------------------------------------------------------- code
struct CFunc; struct Ins;
struct Frame {
  CFunc *fn; int bb; int ip; // ip: index into the function's instruction array
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<Val> varargs;
  u64 excObj = 0;           // exception being delivered to a landing pad
  int callDst = -1;         // where the caller wants the result
};
struct ExcRec { u64 obj, ti, dtor; int handlers; u64 adjusted; };
enum TStat : uint8_t { TS_RUN, TS_BLOCKED, TS_DONE };
struct Thread {
  std::vector<std::shared_ptr<Frame>> st;
  TStat stat = TS_RUN; u64 key = 0; bool timed = false; bool timedOut = false;
  std::vector<u64> caught;  // stack of caught exception objects
};
struct InRec { std::string name; std::vector<E> bytes; };
struct Md5Rec { std::vector<E> in; std::vector<E> out; bool real; };

struct State {
  ObjTab mem;
  std::vector<Thread> th; int cur = 0;
  std::vector<E> pc; Model model;
  std::vector<InRec> in; std::vector<InRec> obs;
  std::vector<ExcRec> excs;
  std::vector<uint32_t> freeStack;
  std::vector<Md5Rec> md5;
  std::shared_ptr<std::vector<std::string>> reach;
  u64 nextObj = 0; u64 nins = 0; u64 forks = 0; int preempt = 0; int pathLen = 0;
  std::map<u64, u64> kv;    // small key/value store for models
};
