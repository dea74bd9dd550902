// Symbolic executor for LLVM-18 bitcode: explores every path of @sx_main within the given limits.
#include "exec.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalIFunc.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, KFunc *> kfuncs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function *> faddr;
static std::map<uint64_t, int> typeIds;
static std::map<std::string, std::string> stdParents; // typeinfo symbol -> parent typeinfo symbol

static uint64_t optSteps = 3000000, optMaxStates = 0;
static double optTime = 60;
static unsigned optWorkers = 8, optWit = 4, optSplit = 256;
static std::string optOut = "/tmp/sx", optEntry = "sx_main";
static bool optVerbose = false;
static int optMaxErrors = 4;

static auto T0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Stats {
  uint64_t insts = 0, pathsDone = 0, pathsKilledAssume = 0, pathsErr = 0, forks = 0, unknown = 0, unsupported = 0, stepLimited = 0, unfinished = 0, asserts = 0, assertQueries = 0, memChecks = 0, uninit = 0;
} st_;
static std::vector<ErrorRec> errors;
static std::map<std::string, uint64_t> errCount, unsupportedMsgs;
static std::vector<std::string> reachNames;
static std::map<std::string, int> reachIds;
static std::vector<uint64_t> reachCnt;
struct Witness { std::vector<std::pair<uint32_t, uint64_t>> in, obs; };
static std::vector<Witness> witnesses;
static std::deque<State *> work;

struct Terminate { int why; }; // thrown to stop the current path

static Val V(uint64_t c) { Val v; v.c = c; return v; }
static Val VE(Expr *e) {
  Val v;
  if (e->isConst() && e->w <= 64) v.c = e->cst.getZExtValue();
  else v.e = e;
  return v;
}
static Expr *X(const Val &v, uint32_t w) {
  if (v.e) {
    if (v.e->w != w) { fprintf(stderr, "X width %u vs %u: %s\n", v.e->w, w, exprStr(v.e).c_str()); abort(); }
    return v.e;
  }
  return mkConst(w, v.c);
}
static uint64_t maskw(uint64_t v, uint32_t w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

// ---------------------------------------------------------------- memory
static const uint64_t REG[3] = {0x100000000000ull, 0x200000000000ull, 0x300000000000ull};
static const uint64_t FUNCREG = 0x700000000000ull;
static Expr *UNINIT = (Expr *)1;
static uint64_t objAddr(ObjKind k, uint32_t id) { return REG[k] + ((uint64_t)id << 24) + 0x10000; }
static bool decode(uint64_t a, int &k, uint32_t &id) {
  uint64_t r = a >> 44;
  if (r < 1 || r > 3) return false;
  k = (int)r - 1;
  id = (uint32_t)((a & ((1ull << 44) - 1)) >> 24);
  return true;
}
static Obj *getR(State &s, int k, uint32_t id) {
  if (id >= s.nObj[k]) return nullptr;
  Page *p = s.pages[k][id >> 5].get();
  return p ? p->o[id & 31].get() : nullptr;
}
static Obj *getW(State &s, int k, uint32_t id) {
  auto &pp = s.pages[k][id >> 5];
  if (pp.use_count() > 1) pp = std::make_shared<Page>(*pp);
  auto &op = pp->o[id & 31];
  if (op.use_count() > 1) op = std::make_shared<Obj>(*op);
  return op.get();
}
static Obj *newObj(State &s, ObjKind k, uint64_t size, const char *name, bool uninit) {
  uint32_t id = s.nObj[k]++;
  if (s.pages[k].size() <= (id >> 5)) s.pages[k].resize((id >> 5) + 1);
  auto &pp = s.pages[k][id >> 5];
  if (!pp) pp = std::make_shared<Page>();
  else if (pp.use_count() > 1) pp = std::make_shared<Page>(*pp);
  auto o = std::make_shared<Obj>();
  o->base = objAddr(k, id);
  o->size = size;
  o->kind = k;
  o->name = name;
  o->b.assign(size, 0);
  if (uninit) o->s.assign(size, UNINIT);
  pp->o[id & 31] = o;
  return o.get();
}
static void popStack(State &s, uint32_t base) {
  for (uint32_t id = base; id < s.nObj[OStack]; id++) {
    auto &pp = s.pages[OStack][id >> 5];
    if (pp.use_count() > 1) pp = std::make_shared<Page>(*pp);
    pp->o[id & 31].reset();
  }
  s.nObj[OStack] = base;
}

// ---------------------------------------------------------------- path conditions
static void learn(State &s, Expr *c) {
  auto eqw = [&]() -> std::unordered_map<Expr *, uint64_t> & {
    if (s.eq.use_count() > 1) s.eq = std::make_shared<EqMap>(*s.eq);
    return s.eq->m;
  };
  eqw()[c] = 1;
  if (c->k == KNot) eqw()[c->a] = 0;
  else if (c->k == KEq) {
    if (c->b->isConst() && c->b->w <= 64) eqw()[c->a] = c->b->cst.getZExtValue();
    else if (c->a->isConst() && c->a->w <= 64) eqw()[c->b] = c->a->cst.getZExtValue();
  } else {
    Expr *n = mkNot(c);
    eqw()[n] = 0;
  }
}
static void addCons(State &s, Expr *c) {
  if (c->isConst()) return;
  if (c->k == KAnd) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->k == KNot && c->a->k == KOr) { addCons(s, mkNot(c->a->a)); addCons(s, mkNot(c->a->b)); return; }
  auto it = s.eq->m.find(c);
  if (it != s.eq->m.end() && it->second == 1) return;
  s.cons.push_back(c);
  learn(s, c);
}
static Expr *norm(State &s, Expr *e) {
  if (e->isConst()) return e;
  auto it = s.eq->m.find(e);
  if (it != s.eq->m.end()) return mkConst(e->w, it->second);
  return e;
}
static Val NV(State &s, Expr *e) { return VE(norm(s, e)); }

static State *cloneState(State &s) { return new State(s); }

// The core decision procedure: returns the truth value this state continues with; if both are
// possible a clone that re-executes the current instruction under the opposite value is queued.
static std::string backtrace(State &s);
static bool optProf;
static std::map<std::string, uint64_t> forkSites;
static bool decide(State &s, Expr *c) {
  c = norm(s, c);
  if (c->isConst()) return !c->cst.isZero();
  bool v = !evalExpr(c, *s.model).isZero();
  Expr *other = v ? mkNot(c) : c;
  Model m;
  Sat r = solve(s.cons, other, *s.model, m);
  if (r == Sat::Yes) {
    State *n = cloneState(s);
    n->model = std::make_shared<Model>(std::move(m));
    addCons(*n, other);
    n->depth++;
    work.push_back(n);
    st_.forks++;
    if (optProf) forkSites[backtrace(s)]++;
    addCons(s, v ? c : mkNot(c));
    s.depth++;
  } else if (r == Sat::Unknown) {
    st_.unknown++;
    addCons(s, v ? c : mkNot(c));
  } else {
    learn(s, v ? c : mkNot(c)); // implied
  }
  return v;
}
static uint64_t concretize(State &s, Expr *e) {
  e = norm(s, e);
  if (e->isConst()) return e->cst.getZExtValue();
  uint64_t v = evalExpr(e, *s.model).getZExtValue();
  Expr *k = mkConst(e->w, v);
  decide(s, mkEq(e, k));
  return v;
}
static uint64_t concV(State &s, const Val &v) { return v.e ? concretize(s, v.e) : v.c; }

// ---------------------------------------------------------------- errors
static std::string instWhere(const Instruction *I) {
  std::string r = demangle(I->getFunction()->getName().str());
  if (I->getDebugLoc()) {
    auto L = I->getDebugLoc();
    r += " " + (L->getFilename().str()) + ":" + std::to_string(L.getLine());
  }
  return r;
}
static std::vector<std::pair<uint32_t, uint64_t>> evalRecs(const std::vector<InputRec> &v, const Model &m) {
  std::vector<std::pair<uint32_t, uint64_t>> out;
  for (auto &i : v) out.push_back({i.w, i.e ? evalExpr(i.e, m).getZExtValue() : i.c});
  return out;
}
static KInst *curInst(State &s) {
  Frame &f = *s.stack.back();
  return &f.f->blocks[f.bb].insts[f.pc];
}
static std::string backtrace(State &s) {
  std::string r;
  int n = 0;
  for (size_t i = s.stack.size(); i-- > 0 && n < 8; n++) {
    Frame &f = *s.stack[i];
    size_t pc = std::min(f.pc, f.f->blocks[f.bb].insts.size() - 1);
    r += (n ? " <- " : "") + instWhere(f.f->blocks[f.bb].insts[pc].I);
  }
  return r;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  std::string w = s.stack.empty() ? "?" : instWhere(curInst(s)->I);
  std::string key = kind + "|" + msg + "|" + w;
  if (errCount[key]++ >= (uint64_t)optMaxErrors) return;
  ErrorRec r;
  r.kind = kind;
  r.msg = msg;
  r.where = s.stack.empty() ? "?" : backtrace(s);
  r.inputs = evalRecs(s.inputs, m);
  errors.push_back(r);
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) {
  report(s, kind, msg, *s.model);
  throw Terminate{2};
}
[[noreturn]] static void unsupported(State &s, const std::string &msg) {
  st_.unsupported++;
  unsupportedMsgs[msg + " @ " + (s.stack.empty() ? "?" : backtrace(s))]++;
  throw Terminate{3};
}
// if `bad` is feasible report it; then continue under !bad
static void require(State &s, Expr *good, const std::string &kind, const std::string &msg) {
  good = norm(s, good);
  if (good->isConst()) {
    if (good->cst.isZero()) fail(s, kind, msg);
    return;
  }
  bool v = !evalExpr(good, *s.model).isZero();
  if (!v) {
    report(s, kind, msg, *s.model);
    Model m;
    Sat r = solve(s.cons, good, *s.model, m);
    if (r != Sat::Yes) throw Terminate{2};
    s.model = std::make_shared<Model>(std::move(m));
    addCons(s, good);
    return;
  }
  Model m;
  Expr *bad = mkNot(good);
  Sat r = solve(s.cons, bad, *s.model, m, kind == "assert");
  if (r == Sat::Yes) {
    report(s, kind, msg, m);
    addCons(s, good);
  } else if (r == Sat::Unknown) {
    st_.unknown++;
    addCons(s, good);
  } else
    learn(s, good);
}

// ---------------------------------------------------------------- load/store
static Expr *byteAt(State &s, int k, uint32_t id, Obj *o, uint64_t off) {
  if (o->s.empty() || !o->s[off]) return mkConst(8, o->b[off]);
  if (o->s[off] == UNINIT) {
    Obj *w = getW(s, k, id);
    Expr *e = mkSym(8, "uninit");
    w->s.set(off, e);
    st_.uninit++;
    return e;
  }
  return o->s[off];
}
static std::string addrStr(State &s, uint64_t a) {
  int k; uint32_t id;
  char buf[160];
  if (decode(a, k, id)) {
    Obj *o = getR(s, k, id);
    if (o) { snprintf(buf, sizeof buf, "%s object '%s' size %llu offset %lld", k == 0 ? "global" : k == 1 ? "stack" : "heap", o->name, (unsigned long long)o->size, (long long)(a - o->base)); return buf; }
  }
  if (a < 0x10000) return "null-ish pointer";
  return "wild pointer";
}
// resolve an access of n bytes at possibly symbolic address; may fork.
static Obj *resolve(State &s, const Val &av, uint64_t n, bool write, uint64_t &off, int &k, uint32_t &id) {
  uint64_t a;
  st_.memChecks++;
  if (av.e) {
    Expr *e = norm(s, av.e);
    while (e->k == KIte) { bool c = decide(s, e->a); e = norm(s, c ? e->b : e->c); }
    while (e->k == KAdd && e->a->k == KIte) {
      bool c = decide(s, e->a->a);
      e = norm(s, mkBin(KAdd, c ? e->a->b : e->a->c, e->b));
    }
    if (!e->isConst()) {
      uint64_t v = evalExpr(e, *s.model).getZExtValue();
      Obj *o = nullptr;
      if (decode(v, k, id)) o = getR(s, k, id);
      if (!o) {
        // the model's pointer is wild: is some other value fine?  report and stop this path
        fail(s, "memory", std::string("symbolic pointer may be invalid (") + addrStr(s, v) + ")");
      }
      Expr *lo = mkConst(64, o->base);
      Expr *rel = mkBin(KSub, e, lo);
      Expr *ok = o->size >= n ? mkBin(KUle, rel, mkConst(64, o->size - n)) : mkFalse();
      std::string what = std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object";
      require(s, ok, "memory", what);
      a = concretize(s, e);
    } else
      a = e->cst.getZExtValue();
  } else
    a = av.c;
  Obj *o = nullptr;
  if (decode(a, k, id)) o = getR(s, k, id);
  if (!o) fail(s, "memory", std::string(write ? "write" : "read") + " through invalid pointer (" + addrStr(s, a) + ")");
  off = a - o->base;
  if (off > o->size || n > o->size - off)
    fail(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object");
  if (o->dead) fail(s, "memory", std::string(write ? "write" : "read") + " after free");
  if (write && o->ro) fail(s, "memory", "write to read-only object");
  return o;
}
static Val loadBytes(State &s, int k, uint32_t id, Obj *o, uint64_t off, uint64_t n, uint32_t w) {
  bool conc = true;
  if (!o->s.empty() && o->s.any(off, n)) conc = false;
  if (conc && n <= 8) {
    uint64_t v = 0;
    memcpy(&v, &o->b[off], n);
    return V(maskw(v, w));
  }
  Expr *e = byteAt(s, k, id, o, off);
  for (uint64_t i = 1; i < n; i++) {
    o = getR(s, k, id);
    e = mkConcat(byteAt(s, k, id, o, off + i), e);
  }
  if (e->w > w) e = mkExtract(e, 0, w);
  return NV(s, e);
}
static uint32_t scalarW(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  if (t->isFP128Ty()) return 128;
  return 0;
}
static Val loadTyped(State &s, const Val &addr, Type *t);
static void storeTyped(State &s, const Val &addr, const Val &v, Type *t);
static Val addOff(const Val &a, uint64_t off) {
  if (!a.e) return V(a.c + off);
  return VE(mkBin(KAdd, a.e, mkConst(64, off)));
}
static Val loadScalar(State &s, const Val &addr, uint32_t w) {
  uint64_t n = (w + 7) / 8, off;
  int k; uint32_t id;
  if (addr.e) {
    Expr *e = norm(s, addr.e);
    while (e->k == KIte) { bool c = decide(s, e->a); e = norm(s, c ? e->b : e->c); }
    if (!e->isConst()) {
      // table lookup in a small object: one ITE chain instead of a fork per offset
      uint64_t v = evalExpr(e, *s.model).getZExtValue();
      Obj *o = nullptr;
      if (decode(v, k, id)) o = getR(s, k, id);
      if (o && !o->dead && (o->ro || o->size <= 64) && o->size <= 4096 && o->size >= n) {
        Expr *rel = mkBin(KSub, e, mkConst(64, o->base));
        require(s, mkBin(KUle, rel, mkConst(64, o->size - n)), "memory", std::string("out-of-bounds read of ") + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object");
        // stride detection: trailing zero bits of the relative offset
        uint64_t stride = 1;
        while (stride < n && stride < 64) {
          Expr *low = mkExtract(rel, 0, 64 - __builtin_clzll(stride * 2 - 1));
          if (low->isConst() && low->cst.isZero()) stride *= 2; else break;
        }
        if (stride < n) {
          uint64_t t = n;
          Expr *z = mkExtract(rel, 0, t >= 8 ? 3 : t >= 4 ? 2 : t >= 2 ? 1 : 1);
          if (n > 1 && z->isConst() && z->cst.isZero()) stride = n;
        }
        if (o->size / stride <= 1024) {
          Expr *r = nullptr;
          uint64_t last = (o->size - n) / stride * stride;
          for (int64_t of = (int64_t)last; of >= 0; of -= (int64_t)stride) {
            Val x = loadBytes(s, k, id, getR(s, k, id), of, n, w);
            Expr *xe = X(x, w);
            r = r ? mkIte(mkEq(rel, mkConst(64, of)), xe, r) : xe;
          }
          return NV(s, r);
        }
      }
    }
  }
  Obj *o = resolve(s, addr, n, false, off, k, id);
  return loadBytes(s, k, id, o, off, n, w);
}
static void storeScalar(State &s, const Val &addr, const Val &v, uint32_t w) {
  uint64_t n = (w + 7) / 8, off;
  int k; uint32_t id;
  resolve(s, addr, n, true, off, k, id);
  Obj *o = getW(s, k, id);
  if (!v.e && n <= 8) {
    uint64_t c = maskw(v.c, w);
    memcpy(&o->b[off], &c, n);
    if (!o->s.empty())
      o->s.fill(off, n, nullptr);
    return;
  }
  Expr *e = X(v, w);
  if (w < n * 8) e = mkZExt(e, n * 8);
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (uint64_t i = 0; i < n; i++) {
    Expr *x = mkExtract(e, i * 8, 8);
    if (x->isConst()) { o->b[off + i] = (uint8_t)x->cst.getZExtValue(); o->s.set(off + i, nullptr); }
    else o->s.set(off + i, x);
  }
}
static Val loadTyped(State &s, const Val &addr, Type *t) {
  if (uint32_t w = scalarW(t)) return loadScalar(s, addr, w);
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(loadTyped(s, addOff(addr, es * i), vt->getElementType()));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadTyped(s, addOff(addr, es * i), at->getElementType()));
  } else if (auto *stt = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(stt);
    for (unsigned i = 0; i < stt->getNumElements(); i++) r.agg->push_back(loadTyped(s, addOff(addr, L->getElementOffset(i)), stt->getElementType(i)));
  } else
    unsupported(s, "load type");
  return r;
}
static void storeTyped(State &s, const Val &addr, const Val &v, Type *t) {
  if (uint32_t w = scalarW(t)) return storeScalar(s, addr, v, w);
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeTyped(s, addOff(addr, es * i), (*v.agg)[i], vt->getElementType());
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeTyped(s, addOff(addr, es * i), (*v.agg)[i], at->getElementType());
  } else if (auto *stt = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(stt);
    for (unsigned i = 0; i < stt->getNumElements(); i++) storeTyped(s, addOff(addr, L->getElementOffset(i)), (*v.agg)[i], stt->getElementType(i));
  } else
    unsupported(s, "store type");
}
static void copyMem(State &s, const Val &d, const Val &src, uint64_t n) {
  if (!n) return;
  int k, k2; uint32_t id, id2; uint64_t o1, o2;
  resolve(s, src, n, false, o2, k2, id2);
  resolve(s, d, n, true, o1, k, id);
  Obj *so = getR(s, k2, id2);
  std::vector<uint8_t> b(so->b.begin() + o2, so->b.begin() + o2 + n);
  std::vector<Expr *> e;
  bool sym = false;
  if (!so->s.empty() && so->s.any(o2, n)) {
    sym = true;
    e.resize(n);
    for (uint64_t i = 0; i < n; i++) e[i] = so->s[o2 + i];
  }
  Obj *o = getW(s, k, id);
  std::copy(b.begin(), b.end(), o->b.begin() + o1);
  if (sym) {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (uint64_t i = 0; i < n; i++) o->s.set(o1 + i, e[i]);
  } else if (!o->s.empty())
    o->s.fill(o1, n, nullptr);
}
static void setMem(State &s, const Val &d, const Val &v, uint64_t n) {
  if (!n) return;
  int k; uint32_t id; uint64_t o1;
  resolve(s, d, n, true, o1, k, id);
  Obj *o = getW(s, k, id);
  if (v.e) {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s.fill(o1, n, v.e);
  } else {
    memset(&o->b[o1], (int)v.c, n);
    if (!o->s.empty()) o->s.fill(o1, n, nullptr);
  }
}
static std::string readCStr(State &s, const Val &a) {
  std::string r;
  uint64_t p = concV(s, a);
  for (int i = 0; i < 300; i++) {
    Val v = loadScalar(s, V(p + i), 8);
    if (v.e || !v.c) break;
    r.push_back((char)v.c);
  }
  return r;
}

// ---------------------------------------------------------------- constants & decoding
static Val evalConst(const Constant *c);
static Val zeroOf(Type *t) {
  if (uint32_t w = scalarW(t)) return w <= 64 ? V(0) : VE(mkConst(w, 0));
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  unsigned n = 0;
  if (auto *vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
  else if (auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
  else if (auto *stt = dyn_cast<StructType>(t)) n = stt->getNumElements();
  for (unsigned i = 0; i < n; i++)
    r.agg->push_back(zeroOf(isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : t->getContainedType(0)));
  return r;
}
static Val fromAP(const APInt &a) { return VE(mkConst(a)); }
static Val evalConst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return fromAP(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return fromAP(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return V(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) {
      if (auto *al = dyn_cast<GlobalAlias>(gv)) return evalConst(al->getAliasee());
      fprintf(stderr, "no address for %s\n", gv->getName().str().c_str());
      return V(0);
    }
    return V(it->second);
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(evalConst(cd->getElementAsConstant(i)));
    return r;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < c->getNumOperands(); i++) r.agg->push_back(evalConst(cast<Constant>(c->getOperand(i))));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return evalConst(cast<Constant>(ce->getOperand(i))); };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      auto *gep = cast<GEPOperator>(ce);
      gep->accumulateConstantOffset(*DL, off);
      return V(op(0).c + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Val v = op(0);
      uint32_t w = scalarW(ce->getType());
      if (w && !v.e) v.c = maskw(v.c, w);
      return v;
    }
    case Instruction::Trunc: { Val v = op(0); v.c = maskw(v.c, scalarW(ce->getType())); return v; }
    case Instruction::Add: return V(maskw(op(0).c + op(1).c, scalarW(ce->getType())));
    case Instruction::Sub: return V(maskw(op(0).c - op(1).c, scalarW(ce->getType())));
    case Instruction::ICmp: {
      auto p = (CmpInst::Predicate)ce->getPredicate();
      uint64_t a = op(0).c, b = op(1).c;
      switch (p) {
      case CmpInst::ICMP_EQ: return V(a == b);
      case CmpInst::ICMP_NE: return V(a != b);
      case CmpInst::ICMP_UGT: return V(a > b);
      case CmpInst::ICMP_ULT: return V(a < b);
      default: break;
      }
      break;
    }
    default: break;
    }
    fprintf(stderr, "constexpr %s\n", ce->getOpcodeName());
    abort();
  }
  if (isa<ConstantTokenNone>(c)) return V(0);
  errs() << "const? " << *c << "\n";
  abort();
}

static KFunc *getK(const Function *F) {
  auto it = kfuncs.find(F);
  if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc();
  k->F = F;
  kfuncs[F] = k;
  std::unordered_map<const Value *, int> reg;
  std::unordered_map<const BasicBlock *, int> bbi;
  for (auto &a : F->args()) reg[&a] = k->nregs++;
  int nb = 0;
  for (auto &B : *F) {
    bbi[&B] = nb++;
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) reg[&I] = k->nregs++;
  }
  std::unordered_map<const Constant *, int> cm;
  auto code = [&](const Value *v) -> int {
    auto r = reg.find(v);
    if (r != reg.end()) return r->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto i = cm.find(c);
      if (i != cm.end()) return i->second;
      k->consts.push_back(evalConst(c));
      int x = -(int)k->consts.size();
      cm[c] = x;
      return x;
    }
    return INT32_MIN; // metadata, asm, blocks
  };
  k->blocks.resize(nb);
  for (auto &B : *F) {
    KBlock &kb = k->blocks[bbi[&B]];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki;
      ki.I = &I;
      ki.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) { ki.dest = reg[&I]; ki.w = scalarW(I.getType()); }
      if (auto *phi = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) ki.phi.push_back({bbi[phi->getIncomingBlock(i)], code(phi->getIncomingValue(i))});
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(code(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *o = gi.getOperand();
          if (auto *stt = gi.getStructTypeOrNull()) {
            ki.gepOff += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(o)->getZExtValue());
          } else {
            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(o)) ki.gepOff += ci->getSExtValue() * sz;
            else ki.gep.push_back({code(o), sz, scalarW(o->getType())});
          }
        }
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) ki.ops.push_back(isa<MetadataAsValue>(a) ? INT32_MIN : code(a));
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        ki.callee = dyn_cast<Function>(cv);
        if (!ki.callee && !isa<InlineAsm>(cv)) ki.ops.push_back(code(cb->getCalledOperand()));
        if (auto *inv = dyn_cast<InvokeInst>(&I)) {
          ki.succ.push_back(bbi[inv->getNormalDest()]);
          ki.succ.push_back(bbi[inv->getUnwindDest()]);
        }
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) ki.ops.push_back(code(br->getCondition()));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) ki.succ.push_back(bbi[br->getSuccessor(i)]);
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        ki.ops.push_back(code(sw->getCondition()));
        ki.succ.push_back(bbi[sw->getDefaultDest()]);
        for (auto c : sw->cases()) { ki.succ.push_back(bbi[c.getCaseSuccessor()]); ki.ops.push_back(code(c.getCaseValue())); }
      } else {
        for (auto &o : I.operands()) ki.ops.push_back(isa<BasicBlock>(o) ? INT32_MIN : code(o));
      }
      kb.insts.push_back(std::move(ki));
    }
  }
  return k;
}

// ---------------------------------------------------------------- interpretation
static inline const Val &opRaw(State &s, Frame &f, int code) {
  return code >= 0 ? f.regs[code] : f.f->consts[-1 - code];
}
static Val opv(State &s, Frame &f, int code) {
  const Val &v = opRaw(s, f, code);
  if (v.e && !v.agg) {
    Expr *n = norm(s, v.e);
    if (n != v.e) return VE(n);
  }
  return v;
}
static Frame &top(State &s) {
  auto &p = s.stack.back();
  if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
  return *p;
}
static void pushFrame(State &s, const Function *F, std::vector<Val> args, const KInst *call) {
  if (s.stack.size() > 400) fail(s, "recursion", "call depth exceeds 400 (unbounded recursion)");
  KFunc *k = getK(F);
  k->entries++;
  auto f = std::make_shared<Frame>();
  f->f = k;
  f->regs.resize(k->nregs);
  f->stackBase = s.nObj[OStack];
  f->call = call;
  size_t na = F->arg_size(), i = 0;
  for (auto &a : F->args()) {
    if (i < args.size()) {
      if (a.hasByValAttr()) {
        uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
        Obj *o = newObj(s, OStack, n, "byval", true);
        uint64_t base = o->base;
        copyMem(s, V(base), args[i], n);
        f->regs[i] = V(base);
      } else
        f->regs[i] = args[i];
    }
    i++;
  }
  for (; na < args.size(); na++) f->varargs.push_back(args[na]);
  s.stack.push_back(f);
}
static void enterBlock(State &s, Frame &f, int b) {
  f.prev = f.bb;
  f.bb = b;
  f.pc = 0;
  // parallel phi evaluation
  auto &ins = f.f->blocks[b].insts;
  std::vector<std::pair<int, Val>> tmp;
  size_t i = 0;
  for (; i < ins.size() && ins[i].opc == Instruction::PHI; i++) {
    for (auto &p : ins[i].phi)
      if (p.first == f.prev) { tmp.push_back({ins[i].dest, opv(s, f, p.second)}); break; }
  }
  for (auto &t : tmp) f.regs[t.first] = t.second;
  f.pc = i;
}
static void setRes(Frame &f, const KInst &ki, Val v) {
  if (ki.dest >= 0) f.regs[ki.dest] = std::move(v);
}
// finish a call-like instruction that was executed inline
static void finishCall(State &s, Frame &f, const KInst &ki) {
  if (ki.opc == Instruction::Invoke) enterBlock(s, f, ki.succ[0]);
  else f.pc++;
}

// --- exceptions
static const GlobalVariable *tiGlobal(uint64_t a) {
  static std::unordered_map<uint64_t, const GlobalVariable *> m;
  if (m.empty())
    for (auto &p : gaddr)
      if (auto *g = dyn_cast<GlobalVariable>(p.first)) m[p.second] = g;
  auto it = m.find(a);
  return it == m.end() ? nullptr : it->second;
}
static bool tiDerived(uint64_t ti, uint64_t base, int depth = 0) {
  if (ti == base) return true;
  if (depth > 12) return false;
  const GlobalVariable *g = tiGlobal(ti), *bg = tiGlobal(base);
  if (g && bg && g->getName() == bg->getName()) return true;
  if (!g) return false;
  if (g->hasInitializer()) {
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) {
      if (!cs->getOperand(i)->getType()->isPointerTy()) continue;
      Val v = evalConst(cs->getOperand(i));
      if (v.c && tiDerived(v.c, base, depth + 1)) return true;
    }
    return false;
  }
  std::string n = g->getName().str();
  while (true) {
    auto it = stdParents.find(n);
    if (it == stdParents.end()) return false;
    n = it->second;
    if (bg && bg->getName() == n) return true;
  }
}
static int typeId(uint64_t ti) {
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  int n = (int)typeIds.size() + 1;
  return typeIds[ti] = n;
}
// selector for a landing pad; 0 = cleanup only; -1 = not entered
static int landing(const LandingPadInst *lp, uint64_t ti) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      Val v = evalConst(lp->getClause(i));
      if (v.c == 0 || tiDerived(ti, v.c)) return typeId(v.c);
    } else {
      auto *arr = lp->getClause(i);
      bool ok = false;
      for (unsigned j = 0; j < arr->getNumOperands(); j++) {
        Val v = evalConst(cast<Constant>(arr->getOperand(j)));
        if (v.c == 0 || tiDerived(ti, v.c)) ok = true;
      }
      if (!ok) return -2 - (int)i; // exception specification violated: enters with a negative selector
    }
  }
  return lp->isCleanup() ? 0 : -1;
}
static void unwind(State &s, bool search) {
  if (search) {
    bool found = false;
    for (size_t i = s.stack.size(); i-- > 0;) {
      Frame &f = *s.stack[i];
      // the invoke through which frame i called frame i+1 (or the current instruction for the top)
      const KInst &ki = f.f->blocks[f.bb].insts[f.pc];
      if (ki.opc == Instruction::Invoke) {
        auto *lp = cast<InvokeInst>(ki.I)->getLandingPadInst();
        int sel = landing(lp, s.excTi);
        if (sel > 0 || sel < -1) { found = true; break; }
      }
    }
    if (!found) {
      auto *g = tiGlobal(s.excTi);
      fail(s, "exception", "uncaught exception " + (g ? demangle(g->getName().str()) : std::string("?")));
    }
  }
  while (!s.stack.empty()) {
    Frame &f = top(s);
    const KInst &ki = f.f->blocks[f.bb].insts[f.pc];
    if (ki.opc == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(ki.I)->getLandingPadInst();
      int sel = landing(lp, s.excTi);
      if (sel != -1) {
        enterBlock(s, f, ki.succ[1]);
        return;
      }
    }
    popStack(s, f.stackBase);
    s.stack.pop_back();
  }
  fail(s, "exception", "unwound past the harness");
}

static Expr *cmpExpr(CmpInst::Predicate p, Expr *a, Expr *b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b);
  case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_UGT: return mkBin(KUlt, b, a);
  case CmpInst::ICMP_UGE: return mkBin(KUle, b, a);
  case CmpInst::ICMP_ULT: return mkBin(KUlt, a, b);
  case CmpInst::ICMP_ULE: return mkBin(KUle, a, b);
  case CmpInst::ICMP_SGT: return mkBin(KSlt, b, a);
  case CmpInst::ICMP_SGE: return mkBin(KSle, b, a);
  case CmpInst::ICMP_SLT: return mkBin(KSlt, a, b);
  case CmpInst::ICMP_SLE: return mkBin(KSle, a, b);
  default: abort();
  }
}
static bool cmpConc(CmpInst::Predicate p, uint64_t a, uint64_t b, uint32_t w) {
  int64_t sa = w >= 64 ? (int64_t)a : (int64_t)(a << (64 - w)) >> (64 - w);
  int64_t sb = w >= 64 ? (int64_t)b : (int64_t)(b << (64 - w)) >> (64 - w);
  switch (p) {
  case CmpInst::ICMP_EQ: return a == b;
  case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_UGT: return a > b;
  case CmpInst::ICMP_UGE: return a >= b;
  case CmpInst::ICMP_ULT: return a < b;
  case CmpInst::ICMP_ULE: return a <= b;
  case CmpInst::ICMP_SGT: return sa > sb;
  case CmpInst::ICMP_SGE: return sa >= sb;
  case CmpInst::ICMP_SLT: return sa < sb;
  case CmpInst::ICMP_SLE: return sa <= sb;
  default: abort();
  }
}
static Expr *fcmpExpr(CmpInst::Predicate p, Expr *a, Expr *b) {
  // IEEE 754 comparisons of binary32/binary64 as bit-vector formulas; other formats through the FP theory
  const uint32_t w = a->w;
  const bool bv = w == 32 || w == 64;
  auto mag = [&](Expr *x) { return mkExtract(x, 0, w - 1); };
  auto nan = [&](Expr *x) -> Expr * {
    if (!bv) return mkFp(KFIsNan, 1, x, nullptr);
    APInt inf = w == 32 ? APInt(31, 0x7f800000) : APInt(63, 0x7ff0000000000000ull);
    return mkBin(KUlt, mkConst(inf), mag(x));
  };
  auto un = [&] { return mkOr(nan(a), nan(b)); };
  auto zeros = [&](Expr *x, Expr *y) { return mkAnd(mkEq(mag(x), mkConst(w - 1, 0)), mkEq(mag(y), mkConst(w - 1, 0))); };
  auto eq = [&]() -> Expr * {
    if (!bv) return mkFp(KFOeq, 1, a, b);
    return mkAnd(mkNot(un()), mkOr(mkEq(a, b), zeros(a, b)));
  };
  auto less = [&](Expr *x, Expr *y) { // by value, neither is NaN
    Expr *sx = mkExtract(x, w - 1, 1), *sy = mkExtract(y, w - 1, 1);
    return mkIte(sx, mkOr(mkNot(sy), mkBin(KUlt, mag(y), mag(x))), mkAnd(mkNot(sy), mkBin(KUlt, mag(x), mag(y))));
  };
  auto lt = [&](Expr *x, Expr *y) -> Expr * {
    if (!bv) return mkFp(KFOlt, 1, x, y);
    return mkAnd(mkNot(un()), mkAnd(mkNot(zeros(x, y)), less(x, y)));
  };
  auto le = [&](Expr *x, Expr *y) -> Expr * {
    if (!bv) return mkFp(KFOle, 1, x, y);
    return mkAnd(mkNot(un()), mkOr(zeros(x, y), mkNot(less(y, x))));
  };
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkFalse();
  case CmpInst::FCMP_TRUE: return mkTrue();
  case CmpInst::FCMP_OEQ: return eq();
  case CmpInst::FCMP_OGT: return lt(b, a);
  case CmpInst::FCMP_OGE: return le(b, a);
  case CmpInst::FCMP_OLT: return lt(a, b);
  case CmpInst::FCMP_OLE: return le(a, b);
  case CmpInst::FCMP_ONE: return mkAnd(mkNot(eq()), mkNot(un()));
  case CmpInst::FCMP_ORD: return mkNot(un());
  case CmpInst::FCMP_UNO: return un();
  case CmpInst::FCMP_UEQ: return mkOr(eq(), un());
  case CmpInst::FCMP_UGT: return mkNot(le(a, b));
  case CmpInst::FCMP_UGE: return mkNot(lt(a, b));
  case CmpInst::FCMP_ULT: return mkNot(le(b, a));
  case CmpInst::FCMP_ULE: return mkNot(lt(b, a));
  case CmpInst::FCMP_UNE: return mkNot(eq());
  default: abort();
  }
}
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, uint32_t w) {
  Kind k;
  switch (opc) {
  case Instruction::Add: k = KAdd; break;
  case Instruction::Sub: k = KSub; break;
  case Instruction::Mul: k = KMul; break;
  case Instruction::UDiv: k = KUDiv; break;
  case Instruction::SDiv: k = KSDiv; break;
  case Instruction::URem: k = KURem; break;
  case Instruction::SRem: k = KSRem; break;
  case Instruction::Shl: k = KShl; break;
  case Instruction::LShr: k = KLShr; break;
  case Instruction::AShr: k = KAShr; break;
  case Instruction::And: k = KAnd; break;
  case Instruction::Or: k = KOr; break;
  case Instruction::Xor: k = KXor; break;
  case Instruction::FAdd: return NV(s, mkFp(KFAdd, w, X(a, w), X(b, w)));
  case Instruction::FSub: return NV(s, mkFp(KFSub, w, X(a, w), X(b, w)));
  case Instruction::FMul: return NV(s, mkFp(KFMul, w, X(a, w), X(b, w)));
  case Instruction::FDiv: return NV(s, mkFp(KFDiv, w, X(a, w), X(b, w)));
  case Instruction::FRem: return NV(s, mkFp(KFRem, w, X(a, w), X(b, w)));
  default: abort();
  }
  if (k == KUDiv || k == KSDiv || k == KURem || k == KSRem)
    require(s, mkNot(mkEq(X(b, w), mkConst(w, 0))), "arith", "division by zero");
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c;
    switch (k) {
    case KAdd: return V(maskw(x + y, w));
    case KSub: return V(maskw(x - y, w));
    case KMul: return V(maskw(x * y, w));
    case KAnd: return V(x & y);
    case KOr: return V(x | y);
    case KXor: return V(x ^ y);
    case KShl: return V(y >= w ? 0 : maskw(x << y, w));
    case KLShr: return V(y >= w ? 0 : x >> y);
    default: return VE(mkConst(binFold(k, APInt(w, x), APInt(w, y))));
    }
  }
  return NV(s, mkBin(k, X(a, w), X(b, w)));
}
// flatten to one wide expression and back (for bitcasts between vector types)
static Expr *flat(const Val &v, Type *t) {
  if (uint32_t w = scalarW(t)) return X(v, w);
  auto *vt = cast<FixedVectorType>(t);
  Expr *e = nullptr;
  for (unsigned i = 0; i < vt->getNumElements(); i++) {
    Expr *x = flat((*v.agg)[i], vt->getElementType());
    e = e ? mkConcat(x, e) : x;
  }
  return e;
}
static Val unflat(Expr *e, Type *t) {
  if (uint32_t w = scalarW(t)) return VE(mkExtract(e, 0, w));
  auto *vt = cast<FixedVectorType>(t);
  uint32_t w = scalarW(vt->getElementType());
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(VE(mkExtract(e, i * w, w)));
  return r;
}
static Val mapVec(Type *t, const std::function<Val(unsigned)> &fn) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  unsigned n = cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < n; i++) r.agg->push_back(fn(i));
  return r;
}
static Val castOp(State &s, unsigned opc, const Val &a, uint32_t from, uint32_t to) {
  switch (opc) {
  case Instruction::Trunc: return a.e ? NV(s, mkExtract(a.e, 0, to)) : V(maskw(a.c, to));
  case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (to < from) return a.e ? NV(s, mkExtract(a.e, 0, to)) : V(maskw(a.c, to));
    if (!a.e && to <= 64) return a;
    return NV(s, mkZExt(X(a, from), to));
  case Instruction::SExt: return NV(s, mkSExt(X(a, from), to));
  case Instruction::FPToSI: return NV(s, mkFp(KFToSI, to, X(a, from), nullptr));
  case Instruction::FPToUI: return NV(s, mkFp(KFToUI, to, X(a, from), nullptr));
  case Instruction::SIToFP: return NV(s, mkFp(KSIToF, to, X(a, from), nullptr));
  case Instruction::UIToFP: return NV(s, mkFp(KUIToF, to, X(a, from), nullptr));
  case Instruction::FPExt: return NV(s, mkFp(KFExt, to, X(a, from), nullptr));
  case Instruction::FPTrunc: return NV(s, mkFp(KFTrunc, to, X(a, from), nullptr));
  default: abort();
  }
}
static Expr *popcnt(Expr *e, uint32_t w) {
  Expr *r = mkConst(w, 0);
  for (uint32_t i = 0; i < e->w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(e, i, 1), w));
  return r;
}
static Expr *ctz(Expr *e) {
  uint32_t w = e->w;
  Expr *r = mkConst(w, w);
  for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r);
  return r;
}
static Expr *clz(Expr *e) {
  uint32_t w = e->w;
  Expr *r = mkConst(w, w);
  for (uint32_t i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w, w - 1 - i), r);
  return r;
}
static Expr *bswapE(Expr *e) {
  Expr *r = mkExtract(e, 0, 8);
  for (uint32_t i = 8; i < e->w; i += 8) r = mkConcat(r, mkExtract(e, i, 8));
  return r;
}
static Val allocHeap(State &s, uint64_t n, const char *name, uint8_t tag) {
  if (n > (8u << 20)) return V(0);
  Obj *o = newObj(s, OHeap, n, name, true);
  o->tag = tag;
  if (tag == 1) s.liveHeap++;
  return V(o->base);
}
static bool freeHeap(State &s, uint64_t p, const char *what) {
  if (!p) return true;
  int k; uint32_t id;
  Obj *o = nullptr;
  if (decode(p, k, id) && k == OHeap) o = getR(s, k, id);
  if (!o || o->base != p) fail(s, "memory", std::string(what) + " of a pointer that was not allocated (" + addrStr(s, p) + ")");
  if (o->dead) fail(s, "memory", std::string("double ") + what);
  o = getW(s, k, id);
  o->dead = true;
  std::vector<uint8_t>().swap(o->b); // accesses are refused before the contents matter
  o->s.clear();
  if (o->tag == 1) s.liveHeap--;
  return true;
}
static Val symInput(State &s, uint32_t w, const std::string &name) {
  Expr *e;
  // symbols are shared between sibling paths by position, which keeps solver caches effective
  static std::map<std::pair<std::string, std::pair<size_t, uint32_t>>, Expr *> pool;
  auto key = std::make_pair(name, std::make_pair(s.inputs.size(), w));
  auto it = pool.find(key);
  if (it != pool.end()) e = it->second;
  else e = pool[key] = mkSym(w, name + std::to_string(s.inputs.size()));
  s.inputs.push_back({e, 0, w});
  return VE(e);
}
static int reachId(const std::string &n) {
  auto it = reachIds.find(n);
  if (it != reachIds.end()) return it->second;
  int i = (int)reachNames.size();
  reachNames.push_back(n);
  reachCnt.push_back(0);
  return reachIds[n] = i;
}

// Built-in functions.  Returns false if `name` is not built in.
static bool builtin(State &s, Frame &f, const KInst &ki, const Function *F, StringRef name, std::vector<Val> &a) {
  auto done = [&](Val v) { Frame &g = top(s); setRes(g, ki, v); finishCall(s, g, ki); return true; };
  if (name.starts_with("sx_")) {
    if (name == "sx_u8" || name == "sx_u16" || name == "sx_u32" || name == "sx_u64") {
      uint32_t w = name == "sx_u8" ? 8 : name == "sx_u16" ? 16 : name == "sx_u32" ? 32 : 64;
      return done(symInput(s, w, "in"));
    }
    if (name == "sx_bytes") {
      uint64_t n = concV(s, a[1]);
      for (uint64_t i = 0; i < n; i++) storeScalar(s, addOff(a[0], i), symInput(s, 8, "b"), 8);
      return done(Val());
    }
    if (name == "sx_choose") { // forks: returns a concrete value < n
      uint64_t n = concV(s, a[0]);
      // deterministic in-place fork: create clones that return 1..n-1
      for (uint64_t v = n; v-- > 1;) {
        State *c = cloneState(s);
        c->inputs.push_back({nullptr, v, 32});
        c->depth++;
        Frame &g = top(*c);
        setRes(g, ki, V(v));
        finishCall(*c, g, ki);
        work.push_back(c);
        st_.forks++;
      }
      s.inputs.push_back({nullptr, 0, 32});
      return done(V(0));
    }
    if (name == "sx_concretize") return done(V(concV(s, a[0])));
    if (name == "sx_is_symbolic") return done(V(a[0].e != nullptr));
    if (name == "sx_assume") {
      Expr *c = norm(s, X(a[0], 32));
      c = mkNot(mkEq(c, mkConst(32, 0)));
      c = norm(s, c);
      if (c->isConst()) {
        if (c->cst.isZero()) throw Terminate{1};
        return done(Val());
      }
      if (evalExpr(c, *s.model).isZero()) {
        Model m;
        Sat r = solve(s.cons, c, *s.model, m);
        if (r != Sat::Yes) {
          if (r == Sat::Unknown) st_.unknown++;
          throw Terminate{1};
        }
        s.model = std::make_shared<Model>(std::move(m));
      }
      addCons(s, c);
      return done(Val());
    }
    if (name == "sx_assert_") {
      st_.asserts++;
      std::string msg = readCStr(s, a[1]);
      Expr *c = norm(s, mkNot(mkEq(X(a[0], 32), mkConst(32, 0))));
      if (!c->isConst()) st_.assertQueries++;
      require(s, c, "assert", msg);
      return done(Val());
    }
    if (name == "sx_reach") {
      int id = reachId(readCStr(s, a[0]));
      reachCnt[id]++;
      return done(Val());
    }
    if (name == "sx_observe") {
      if (a[0].e) s.observed.push_back({a[0].e, 0, 64});
      else s.observed.push_back({nullptr, a[0].c, 64});
      return done(Val());
    }
    if (name == "sx_live_allocs") return done(V(s.liveHeap));
    if (name == "sx_fail_alloc_after") { s.failAlloc = (int64_t)concV(s, a[0]); return done(Val()); }
    if (name == "sx_alloc_failed") { // whether the failure asked for has happened
      return done(V(s.failAlloc < 0));
    }
    if (name == "sx_memeq") { // non-forking equality
      uint64_t n = concV(s, a[2]);
      Expr *r = mkTrue();
      for (uint64_t i = 0; i < n; i++)
        r = mkAnd(r, mkEq(X(loadScalar(s, addOff(a[0], i), 8), 8), X(loadScalar(s, addOff(a[1], i), 8), 8)));
      return done(NV(s, mkZExt(r, 32)));
    }
    if (name == "sx_ite64") { // non-forking select
      Expr *c = mkNot(mkEq(X(a[0], 32), mkConst(32, 0)));
      return done(NV(s, mkIte(c, X(a[1], 64), X(a[2], 64))));
    }
    if (name == "sx_done") throw Terminate{0};
    if (name == "sx_print") {
      if (optVerbose) fprintf(stderr, "[print] %s %s\n", readCStr(s, a[0]).c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string(a[1].c).c_str());
      return done(Val());
    }
    if (name == "sx_memcmp3") { name = "memcmp"; }
  }
  if (name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t" || name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t" || name == "calloc" || name == "realloc" || name == "aligned_alloc") {
    if (s.failAlloc >= 0) {
      s.failAlloc--;
      if (s.failAlloc < 0) return !name.starts_with("_Z") || name.ends_with("nothrow_t") ? done(V(0)) : false;
    }
    if (name == "malloc" || name.starts_with("_Z")) return done(allocHeap(s, concV(s, a[0]), "malloc", 1));
  }
  if (name == "sx_guarded_page") return done(allocHeap(s, 4096, "page", 1));
  if (name == "aligned_alloc") return done(allocHeap(s, concV(s, a[1]), "aligned", 1));
  if (name == "calloc") {
    uint64_t n = concV(s, a[0]) * concV(s, a[1]);
    Val p = allocHeap(s, n, "calloc", 1);
    setMem(s, p, V(0), n);
    return done(p);
  }
  if (name == "realloc") {
    uint64_t p = concV(s, a[0]), n = concV(s, a[1]);
    if (!p) return done(allocHeap(s, n, "realloc", 1));
    int k; uint32_t id;
    Obj *o = nullptr;
    if (decode(p, k, id) && k == OHeap) o = getR(s, k, id);
    if (!o || o->base != p || o->dead) fail(s, "memory", "realloc of invalid pointer");
    uint64_t m = std::min(o->size, n);
    Val q = allocHeap(s, n, "realloc", 1);
    copyMem(s, q, V(p), m);
    freeHeap(s, p, "free");
    return done(q);
  }
  if (name == "free" || name == "_ZdlPv" || name == "_ZdlPvm" || name == "_ZdaPv" || name == "_ZdaPvm" || name == "_ZdlPvSt11align_val_t" || name == "_ZdlPvmSt11align_val_t" || name == "_ZdaPvSt11align_val_t") {
    freeHeap(s, concV(s, a[0]), "free");
    return done(Val());
  }
  if (name == "malloc_usable_size") {
    uint64_t p = concV(s, a[0]);
    int k; uint32_t id;
    Obj *o = nullptr;
    if (decode(p, k, id)) o = getR(s, k, id);
    return done(V(o ? o->size : 0));
  }
  if (name == "memcpy" || name == "memmove" || name == "mempcpy") {
    uint64_t n = concV(s, a[2]);
    copyMem(s, a[0], a[1], n);
    return done(name == "mempcpy" ? addOff(a[0], n) : a[0]);
  }
  if (name == "memset") {
    uint64_t n = concV(s, a[2]);
    setMem(s, a[0], a[1].e ? VE(mkExtract(a[1].e, 0, 8)) : V(a[1].c & 255), n);
    return done(a[0]);
  }
  if (name == "memcmp" || name == "bcmp") {
    uint64_t n = concV(s, a[2]);
    Expr *r = mkConst(32, 0);
    // pre-resolve both operands (bounds checks) on the whole range
    if (n) {
      int k; uint32_t id; uint64_t o1;
      resolve(s, a[0], n, false, o1, k, id);
      resolve(s, a[1], n, false, o1, k, id);
    }
    Val p0 = V(concV(s, a[0])), p1 = V(concV(s, a[1]));
    if (name == "bcmp") {
      Expr *eq = mkTrue();
      for (uint64_t i = 0; i < n; i++) eq = mkAnd(eq, mkEq(X(loadScalar(s, addOff(p0, i), 8), 8), X(loadScalar(s, addOff(p1, i), 8), 8)));
      r = mkIte(eq, mkConst(32, 0), mkConst(32, 1));
    } else
      for (uint64_t i = n; i-- > 0;) {
        Expr *x = X(loadScalar(s, addOff(p0, i), 8), 8), *y = X(loadScalar(s, addOff(p1, i), 8), 8);
        r = mkIte(mkEq(x, y), r, mkIte(mkBin(KUlt, x, y), mkConst(32, (uint64_t)-1), mkConst(32, 1)));
      }
    return done(NV(s, r));
  }
  if (name == "abort" || name == "_ZSt9terminatev" || name == "__assert_fail" || name == "exit" || name == "_exit" || name == "__cxa_pure_virtual" || name == "__clang_call_terminate") {
    std::string w = name.str();
    if (name == "__assert_fail") w += ": " + readCStr(s, a[0]);
    fail(s, "abort", "program termination via " + w);
  }
  if (name == "__cxa_allocate_exception") return done(allocHeap(s, concV(s, a[0]), "exception", 2));
  if (name == "__cxa_free_exception") return done(Val());
  if (name == "__cxa_throw") {
    s.excObj = concV(s, a[0]);
    s.excTi = concV(s, a[1]);
    unwind(s, true);
    return true;
  }
  if (name == "__cxa_rethrow") {
    if (s.caught.empty()) fail(s, "abort", "rethrow without active exception");
    s.excObj = s.caught.back().first;
    s.excTi = s.caught.back().second;
    unwind(s, true);
    return true;
  }
  if (name == "__cxa_begin_catch") {
    s.caught.push_back({concV(s, a[0]), s.excTi});
    return done(a[0]);
  }
  if (name == "__cxa_end_catch") {
    if (!s.caught.empty()) s.caught.pop_back();
    return done(Val());
  }
  if (name == "__cxa_get_exception_ptr") return done(a[0]);
  if (name == "__cxa_atexit" || name == "__cxa_thread_atexit" || name == "atexit") return done(V(0));
  if (name == "__cxa_guard_acquire") {
    Val v = loadScalar(s, a[0], 8);
    return done(V(v.c ? 0 : 1));
  }
  if (name == "__cxa_guard_release") {
    storeScalar(s, a[0], V(1), 8);
    return done(Val());
  }
  if (name == "__cxa_guard_abort") return done(Val());
  if (F->isDeclaration() && name.starts_with("_ZN") && name.contains("St")) {
    // constructors, destructors and what() of the standard exception classes: no observable effect
    bool exc = name.contains("_error") || name.contains("bad_alloc") || name.contains("exception") || name.contains("out_of_range") || name.contains("invalid_argument") || name.contains("bad_array");
    if (exc && name.contains("4whatEv")) {
      auto *g = M->getNamedValue("sxrt_empty_str");
      return done(V(g ? gaddr[g] : 0));
    }
    if (exc) return done(V(0));
    if (name == "_ZNSt3_V215system_categoryEv" || name == "_ZNSt3_V216generic_categoryEv") {
      auto *g = M->getNamedValue("sxrt_empty_str");
      return done(V(g ? gaddr[g] : 0));
    }
  }
  return false;
}

static bool intrinsic(State &s, Frame &f, const KInst &ki, const Function *F, std::vector<Val> &a) {
  auto done = [&](Val v) { Frame &g = top(s); setRes(g, ki, v); finishCall(s, g, ki); return true; };
  Type *T = ki.I->getType();
  bool vec = T->isVectorTy();
  Type *ET = vec ? cast<FixedVectorType>(T)->getElementType() : T;
  uint32_t w = scalarW(ET);
  auto el = [&](const Val &v, unsigned i) -> Val { return vec && v.agg ? (*v.agg)[i] : v; };
  auto map2 = [&](std::function<Expr *(Expr *, Expr *)> fn) {
    auto one = [&](unsigned i) { return NV(s, fn(X(el(a[0], i), w), X(el(a[1], i), w))); };
    return done(vec ? mapVec(T, one) : one(0));
  };
  auto map1 = [&](std::function<Expr *(Expr *)> fn) {
    auto one = [&](unsigned i) { return NV(s, fn(X(el(a[0], i), w))); };
    return done(vec ? mapVec(T, one) : one(0));
  };
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
  case Intrinsic::vaend: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore:
    return done(V(0));
  case Intrinsic::stacksave: return done(V(0));
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    copyMem(s, a[0], a[1], concV(s, a[2]));
    return done(Val());
  case Intrinsic::memset: setMem(s, a[0], a[1], concV(s, a[2])); return done(Val());
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence:
    return done(a[0]);
  case Intrinsic::is_constant: return done(V(0));
  case Intrinsic::objectsize: return done(V(concV(s, a[1]) ? 0 : ~0ull));
  case Intrinsic::umin: return map2([](Expr *x, Expr *y) { return mkIte(mkBin(KUlt, x, y), x, y); });
  case Intrinsic::umax: return map2([](Expr *x, Expr *y) { return mkIte(mkBin(KUlt, x, y), y, x); });
  case Intrinsic::smin: return map2([](Expr *x, Expr *y) { return mkIte(mkBin(KSlt, x, y), x, y); });
  case Intrinsic::smax: return map2([](Expr *x, Expr *y) { return mkIte(mkBin(KSlt, x, y), y, x); });
  case Intrinsic::abs: return map1([&](Expr *x) { return mkIte(mkBin(KSlt, x, mkConst(w, 0)), mkBin(KSub, mkConst(w, 0), x), x); });
  case Intrinsic::usub_sat: return map2([&](Expr *x, Expr *y) { return mkIte(mkBin(KUlt, x, y), mkConst(w, 0), mkBin(KSub, x, y)); });
  case Intrinsic::uadd_sat: return map2([&](Expr *x, Expr *y) { Expr *r = mkBin(KAdd, x, y); return mkIte(mkBin(KUlt, r, x), mkConst(APInt::getAllOnes(w)), r); });
  case Intrinsic::ctpop: return map1([&](Expr *x) { return popcnt(x, w); });
  case Intrinsic::cttz: return map1([&](Expr *x) { return ctz(x); });
  case Intrinsic::ctlz: return map1([&](Expr *x) { return clz(x); });
  case Intrinsic::bswap: return map1([&](Expr *x) { return bswapE(x); });
  case Intrinsic::bitreverse: return map1([&](Expr *x) { Expr *r = mkExtract(x, 0, 1); for (uint32_t i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1)); return r; });
  case Intrinsic::fshl: case Intrinsic::fshr: {
    bool left = F->getIntrinsicID() == Intrinsic::fshl;
    auto one = [&](unsigned i) {
      Expr *x = X(el(a[0], i), w), *y = X(el(a[1], i), w), *n = X(el(a[2], i), w);
      Expr *c = mkConcat(x, y);
      Expr *sh = mkZExt(mkBin(KURem, n, mkConst(w, w)), 2 * w);
      Expr *r = left ? mkExtract(mkBin(KShl, c, sh), w, w) : mkExtract(mkBin(KLShr, c, sh), 0, w);
      return NV(s, r);
    };
    return done(vec ? mapVec(T, one) : one(0));
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    auto id = F->getIntrinsicID();
    uint32_t ww = scalarW(cast<StructType>(T)->getElementType(0));
    Expr *x = X(a[0], ww), *y = X(a[1], ww);
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
    uint32_t W = mul ? 2 * ww : ww + 1;
    Expr *ex_ = sg ? mkSExt(x, W) : mkZExt(x, W), *ey = sg ? mkSExt(y, W) : mkZExt(y, W);
    Kind k = mul ? KMul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? KAdd : KSub;
    Expr *full = mkBin(k, ex_, ey);
    Expr *r = mkExtract(full, 0, ww);
    Expr *ov = mkNot(mkEq(full, sg ? mkSExt(r, W) : mkZExt(r, W)));
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    v.agg->push_back(NV(s, mkBin(k, x, y)));
    v.agg->push_back(NV(s, ov));
    return done(v);
  }
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "abort", "trap instruction reached");
  case Intrinsic::eh_typeid_for: return done(V(typeId(concV(s, a[0]))));
  case Intrinsic::fabs: return map1([&](Expr *x) { return mkZExt(mkExtract(x, 0, w - 1), w); });
  case Intrinsic::copysign: return map2([&](Expr *x, Expr *y) { return mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)); });
  case Intrinsic::ceil: return map1([&](Expr *x) { return mkFp(KFRound, w, x, nullptr, 0); });
  case Intrinsic::floor: return map1([&](Expr *x) { return mkFp(KFRound, w, x, nullptr, 1); });
  case Intrinsic::trunc: return map1([&](Expr *x) { return mkFp(KFRound, w, x, nullptr, 2); });
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return map1([&](Expr *x) { return mkFp(KFRound, w, x, nullptr, 3); });
  case Intrinsic::round: return map1([&](Expr *x) { return mkFp(KFRound, w, x, nullptr, 4); });
  case Intrinsic::fmuladd: { // not fused: as on the baseline x86-64 target
    Expr *m = mkFp(KFMul, w, X(a[0], w), X(a[1], w));
    return done(NV(s, mkFp(KFAdd, w, m, X(a[2], w))));
  }
  case Intrinsic::ptrmask: return done(NV(s, mkBin(KAnd, X(a[0], 64), X(a[1], 64))));
  case Intrinsic::load_relative: {
    Val o = loadScalar(s, VE(mkBin(KAdd, X(a[0], 64), X(a[1], 64))), 32);
    return done(NV(s, mkBin(KAdd, X(a[0], 64), mkSExt(X(o, 32), 64))));
  }
  case Intrinsic::vastart: {
    // SysV va_list: all arguments in the overflow area
    auto va = f.varargs;
    Obj *o = newObj(s, OStack, std::max<size_t>(8, va.size() * 8), "varargs", false);
    uint64_t base = o->base;
    for (size_t i = 0; i < va.size(); i++)
      if (!va[i].agg) {
        if (va[i].e && va[i].e->w < 64) storeScalar(s, V(base + i * 8), VE(mkZExt(va[i].e, 64)), 64);
        else if (va[i].e && va[i].e->w > 64) unsupported(s, "wide vararg");
        else storeScalar(s, V(base + i * 8), va[i], 64);
      }
    storeScalar(s, a[0], V(48), 32);
    storeScalar(s, addOff(a[0], 4), V(304), 32);
    storeScalar(s, addOff(a[0], 8), V(base), 64);
    storeScalar(s, addOff(a[0], 16), V(0), 64);
    return done(Val());
  }
  case Intrinsic::vacopy: copyMem(s, a[0], a[1], 24); return done(Val());
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
    auto id = F->getIntrinsicID();
    Kind k = id == Intrinsic::vector_reduce_or ? KOr : id == Intrinsic::vector_reduce_and ? KAnd : id == Intrinsic::vector_reduce_add ? KAdd : KXor;
    Expr *r = nullptr;
    for (auto &v : *a[0].agg) { Expr *x = X(v, w); r = r ? mkBin(k, r, x) : x; }
    return done(NV(s, r));
  }
  default: break;
  }
  StringRef n = F->getName();
  if (n == "llvm.x86.rdtsc") return done(V(12345));
  if (n == "llvm.x86.sse2.pmovmskb.128" || n == "llvm.x86.avx2.pmovmskb") {
    Expr *r = nullptr;
    for (auto &v : *a[0].agg) { Expr *x = mkExtract(X(v, 8), 7, 1); r = r ? mkConcat(x, r) : x; }
    return done(NV(s, mkZExt(r, 32)));
  }
  if (n == "llvm.x86.sse.movmsk.ps" || n == "llvm.x86.sse2.movmsk.pd" || n == "llvm.x86.avx.movmsk.ps.256" || n == "llvm.x86.avx.movmsk.pd.256") {
    Expr *r = nullptr;
    uint32_t ew = n.contains(".ps") ? 32 : 64;
    for (auto &v : *a[0].agg) { Expr *x = mkExtract(X(v, ew), ew - 1, 1); r = r ? mkConcat(x, r) : x; }
    return done(NV(s, mkZExt(r, 32)));
  }
  if (n == "llvm.x86.sse2.packsswb.128" || n == "llvm.x86.sse2.packssdw.128" || n == "llvm.x86.avx2.packsswb" || n == "llvm.x86.avx2.packssdw") {
    uint32_t iw = n.contains("wb") ? 16 : 32, ow = iw / 2;
    size_t ne = a[0].agg->size(), lane = 128 / iw;
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    auto sat = [&](const Val &v) {
      Expr *x = X(v, iw);
      APInt mx = APInt::getSignedMaxValue(ow).sext(iw), mn = APInt::getSignedMinValue(ow).sext(iw);
      return NV(s, mkExtract(mkIte(mkBin(KSlt, x, mkConst(mn)), mkConst(mn), mkIte(mkBin(KSlt, mkConst(mx), x), mkConst(mx), x)), 0, ow));
    };
    for (size_t l = 0; l < ne; l += lane)
      for (int q = 0; q < 2; q++)
        for (size_t i = 0; i < lane; i++) r.agg->push_back(sat((*a[q].agg)[l + i]));
    return done(r);
  }
  unsupported(s, "intrinsic " + n.str());
}

static void execCall(State &s, const KInst &ki) {
  Frame &f = top(s);
  auto *cb = cast<CallBase>(ki.I);
  std::vector<Val> args;
  for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(ki.ops[i] == INT32_MIN ? Val() : opv(s, f, ki.ops[i]));
  const Function *F = ki.callee;
  if (!F) {
    if (cb->isInlineAsm()) {
      auto *ia = cast<InlineAsm>(cb->getCalledOperand());
      Val r;
      if (!ki.I->getType()->isVoidTy()) r = zeroOf(ki.I->getType());
      (void)ia; // cpuid / barriers: zero results (no optional CPU features)
      setRes(f, ki, r);
      finishCall(s, f, ki);
      return;
    }
    Val fp = opv(s, f, ki.ops.back());
    uint64_t p = concV(s, fp);
    auto it = faddr.find(p);
    if (it == faddr.end()) fail(s, "memory", "call through invalid function pointer");
    F = it->second;
  }
  if (F->isIntrinsic()) { intrinsic(s, f, ki, F, args); return; }
  static std::unordered_map<const Function *, int> isBuiltin; // 0 maybe, 1 no
  auto ib = isBuiltin.find(F);
  if (ib == isBuiltin.end() || ib->second == 0) {
    if (builtin(s, f, ki, F, F->getName(), args)) { isBuiltin[F] = 0; return; }
    if (!F->getName().starts_with("_Znw") && !F->getName().starts_with("_Zna")) isBuiltin[F] = 1;
  }
  if (F->isDeclaration()) {
    if (F->getName().starts_with("_Znwm") || F->getName().starts_with("_Znam")) F = M->getFunction("sxrt_throw_bad_alloc");
    if (!F || F->isDeclaration()) unsupported(s, "external function " + demangle(cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "?"));
    args.clear();
  }
  pushFrame(s, F, std::move(args), &ki);
}

static void step(State &s) {
  Frame &f = top(s);
  KBlock &kblk = f.f->blocks[f.bb];
  kblk.hit = true;
  const KInst &ki = kblk.insts[f.pc];
  const Instruction *I = ki.I;
  auto O = [&](int i) { return opv(s, f, ki.ops[i]); };
  switch (ki.opc) {
  case Instruction::Br:
    if (ki.ops.empty()) { enterBlock(s, f, ki.succ[0]); return; }
    {
      Val c = O(0);
      bool v = c.e ? decide(s, c.e) : c.c;
      Frame &g = top(s);
      enterBlock(s, g, ki.succ[v ? 0 : 1]);
    }
    return;
  case Instruction::Switch: {
    Val c = O(0);
    if (!c.e) {
      for (size_t i = 1; i < ki.ops.size(); i++)
        if (O(i).c == c.c) { enterBlock(s, f, ki.succ[i]); return; }
      enterBlock(s, f, ki.succ[0]);
      return;
    }
    // group the case values by destination: one decision per destination block
    std::vector<int> dests;
    for (size_t i = 1; i < ki.ops.size(); i++)
      if (std::find(dests.begin(), dests.end(), ki.succ[i]) == dests.end() && ki.succ[i] != ki.succ[0]) dests.push_back(ki.succ[i]);
    for (int d : dests) {
      Expr *cond = mkFalse();
      for (size_t i = 1; i < ki.ops.size(); i++)
        if (ki.succ[i] == d) cond = mkOr(cond, mkEq(c.e, mkConst(c.e->w, O(i).c)));
      if (decide(s, cond)) { enterBlock(s, top(s), d); return; }
    }
    enterBlock(s, top(s), ki.succ[0]);
    return;
  }
  case Instruction::Ret: {
    Val r;
    if (!ki.ops.empty()) r = O(0);
    popStack(s, f.stackBase);
    s.stack.pop_back();
    if (s.stack.empty()) throw Terminate{0};
    Frame &g = top(s);
    const KInst &cc = g.f->blocks[g.bb].insts[g.pc];
    if (cc.opc == Instruction::Call || cc.opc == Instruction::Invoke) {
      setRes(g, cc, r);
      finishCall(s, g, cc);
    }
    return;
  }
  case Instruction::Call: case Instruction::Invoke: execCall(s, ki); return;
  case Instruction::Resume: {
    // continue unwinding from the caller
    Val v = O(0);
    s.excObj = (*v.agg)[0].c;
    popStack(s, f.stackBase);
    s.stack.pop_back();
    unwind(s, false);
    return;
  }
  case Instruction::Unreachable: fail(s, "abort", "unreachable code reached (undefined behaviour)");
  case Instruction::LandingPad: {
    int sel = landing(cast<LandingPadInst>(I), s.excTi);
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    r.agg->push_back(V(s.excObj));
    r.agg->push_back(V((uint32_t)(sel < 0 ? sel : sel)));
    setRes(f, ki, r);
    f.pc++;
    return;
  }
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * concV(s, O(0));
    Obj *o = newObj(s, OStack, n, "local", true);
    setRes(top(s), ki, V(o->base));
    top(s).pc++;
    return;
  }
  case Instruction::Load: {
    Val v = loadTyped(s, O(0), I->getType());
    Frame &g = top(s);
    setRes(g, ki, v);
    g.pc++;
    return;
  }
  case Instruction::Store: {
    storeTyped(s, O(1), O(0), I->getOperand(0)->getType());
    top(s).pc++;
    return;
  }
  case Instruction::GetElementPtr: {
    Val b = O(0);
    uint64_t c = ki.gepOff;
    Expr *e = b.e;
    if (!e) c += b.c;
    for (auto &t : ki.gep) {
      Val x = opv(s, f, t.op);
      if (!x.e) {
        int64_t sx = t.w >= 64 ? (int64_t)x.c : (int64_t)(x.c << (64 - t.w)) >> (64 - t.w);
        c += (uint64_t)(sx * t.scale);
      } else {
        Expr *y = mkBin(KMul, mkSExt(x.e, 64), mkConst(64, (uint64_t)t.scale));
        e = e ? mkBin(KAdd, e, y) : y;
      }
    }
    if (e) setRes(f, ki, NV(s, mkBin(KAdd, e, mkConst(64, c))));
    else setRes(f, ki, V(c));
    f.pc++;
    return;
  }
  case Instruction::ICmp: {
    auto p = cast<ICmpInst>(I)->getPredicate();
    Type *t = I->getOperand(0)->getType();
    Val a = O(0), b = O(1);
    if (t->isVectorTy()) {
      uint32_t w = scalarW(t->getScalarType());
      setRes(f, ki, mapVec(t, [&](unsigned i) { return NV(s, cmpExpr(p, X((*a.agg)[i], w), X((*b.agg)[i], w))); }));
    } else {
      uint32_t w = scalarW(t);
      if (!a.e && !b.e) setRes(f, ki, V(cmpConc(p, a.c, b.c, w)));
      else setRes(f, ki, NV(s, cmpExpr(p, X(a, w), X(b, w))));
    }
    f.pc++;
    return;
  }
  case Instruction::FCmp: {
    auto p = cast<FCmpInst>(I)->getPredicate();
    Type *t = I->getOperand(0)->getType();
    uint32_t w = scalarW(t->getScalarType());
    Val a = O(0), b = O(1);
    if (t->isVectorTy()) setRes(f, ki, mapVec(t, [&](unsigned i) { return NV(s, fcmpExpr(p, X((*a.agg)[i], w), X((*b.agg)[i], w))); }));
    else setRes(f, ki, NV(s, fcmpExpr(p, X(a, w), X(b, w))));
    f.pc++;
    return;
  }
  case Instruction::FNeg: {
    Val a = O(0);
    uint32_t w = ki.w;
    Expr *x = X(a, w);
    setRes(f, ki, NV(s, mkConcat(mkNot(mkExtract(x, w - 1, 1)), mkExtract(x, 0, w - 1))));
    f.pc++;
    return;
  }
  case Instruction::Select: {
    Val c = O(0), a = O(1), b = O(2);
    Type *t = I->getType();
    if (c.agg) {
      uint32_t w = scalarW(t->getScalarType());
      setRes(f, ki, mapVec(t, [&](unsigned i) { return NV(s, mkIte(X((*c.agg)[i], 1), X((*a.agg)[i], w), X((*b.agg)[i], w))); }));
    } else if (!c.e) setRes(f, ki, c.c ? a : b);
    else if (a.agg) {
      bool v = decide(s, c.e);
      setRes(top(s), ki, v ? a : b);
    } else setRes(f, ki, NV(s, mkIte(c.e, X(a, ki.w), X(b, ki.w))));
    top(s).pc++;
    return;
  }
  case Instruction::ExtractValue: {
    Val v = O(0);
    for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = Val((*v.agg)[i]);
    setRes(f, ki, v);
    f.pc++;
    return;
  }
  case Instruction::InsertValue: {
    Val v = O(0), x = O(1);
    auto idx = cast<InsertValueInst>(I)->getIndices();
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val {
      if (d == idx.size()) return x;
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(*b.agg);
      (*r.agg)[idx[d]] = ins((*b.agg)[idx[d]], d + 1);
      return r;
    };
    setRes(f, ki, ins(v, 0));
    f.pc++;
    return;
  }
  case Instruction::ExtractElement: {
    Val v = O(0);
    uint64_t i = concV(s, O(1));
    setRes(top(s), ki, (*v.agg)[i]);
    top(s).pc++;
    return;
  }
  case Instruction::InsertElement: {
    Val v = O(0), x = O(1);
    uint64_t i = concV(s, O(2));
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(*v.agg);
    (*r.agg)[i] = x;
    setRes(top(s), ki, r);
    top(s).pc++;
    return;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I);
    Val a = O(0), b = O(1);
    size_t n = a.agg->size();
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? V(0) : (size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
    setRes(f, ki, r);
    f.pc++;
    return;
  }
  case Instruction::BitCast: {
    Val a = O(0);
    Type *from = I->getOperand(0)->getType(), *to = I->getType();
    if (from->isVectorTy() || to->isVectorTy()) setRes(f, ki, unflat(flat(a, from), to));
    else setRes(f, ki, a);
    f.pc++;
    return;
  }
  case Instruction::Freeze: setRes(f, ki, O(0)); f.pc++; return;
  case Instruction::Fence: f.pc++; return;
  case Instruction::AtomicRMW: {
    auto *ar = cast<AtomicRMWInst>(I);
    uint32_t w = scalarW(ar->getValOperand()->getType());
    Val p = O(0), x = O(1);
    Val old = loadScalar(s, p, w);
    Expr *o = X(old, w), *v = X(x, w), *r;
    switch (ar->getOperation()) {
    case AtomicRMWInst::Xchg: r = v; break;
    case AtomicRMWInst::Add: r = mkBin(KAdd, o, v); break;
    case AtomicRMWInst::Sub: r = mkBin(KSub, o, v); break;
    case AtomicRMWInst::And: r = mkBin(KAnd, o, v); break;
    case AtomicRMWInst::Or: r = mkBin(KOr, o, v); break;
    case AtomicRMWInst::Xor: r = mkBin(KXor, o, v); break;
    default: unsupported(s, "atomicrmw");
    }
    storeScalar(s, p, VE(r), w);
    Frame &g = top(s);
    setRes(g, ki, old);
    g.pc++;
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *cx = cast<AtomicCmpXchgInst>(I);
    uint32_t w = scalarW(cx->getCompareOperand()->getType());
    Val p = O(0), c = O(1), n = O(2);
    Val old = loadScalar(s, p, w);
    Expr *eq = mkEq(X(old, w), X(c, w));
    storeScalar(s, p, VE(mkIte(eq, X(n, w), X(old, w))), w);
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    r.agg->push_back(old);
    r.agg->push_back(NV(s, eq));
    Frame &g = top(s);
    setRes(g, ki, r);
    g.pc++;
    return;
  }
  default: break;
  }
  if (I->isBinaryOp()) {
    Val a = O(0), b = O(1);
    Type *t = I->getType();
    if (t->isVectorTy()) {
      uint32_t w = scalarW(t->getScalarType());
      Val r = mapVec(t, [&](unsigned i) { return binop(s, ki.opc, (*a.agg)[i], (*b.agg)[i], w); });
      setRes(top(s), ki, r);
    } else {
      Val r = binop(s, ki.opc, a, b, ki.w);
      setRes(top(s), ki, r);
    }
    top(s).pc++;
    return;
  }
  if (I->isCast()) {
    Val a = O(0);
    Type *from = I->getOperand(0)->getType(), *to = I->getType();
    if (to->isVectorTy()) {
      uint32_t fw = scalarW(from->getScalarType()), tw = scalarW(to->getScalarType());
      setRes(f, ki, mapVec(to, [&](unsigned i) { return castOp(s, ki.opc, (*a.agg)[i], fw, tw); }));
    } else
      setRes(f, ki, castOp(s, ki.opc, a, scalarW(from), scalarW(to)));
    f.pc++;
    return;
  }
  unsupported(s, std::string("instruction ") + I->getOpcodeName());
}

struct Shared { std::atomic<uint32_t> next; std::atomic<uint32_t> stop; std::atomic<uint64_t> active; };
static Shared *shm;

static void recordWitness(State &s) {
  static uint64_t seen = 0;
  static uint64_t rng = 88172645463325252ull;
  seen++;
  Witness w;
  if (witnesses.size() < optWit) {
    w.in = evalRecs(s.inputs, *s.model);
    w.obs = evalRecs(s.observed, *s.model);
    witnesses.push_back(w);
    return;
  }
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  if (optWit && rng % seen < optWit) {
    w.in = evalRecs(s.inputs, *s.model);
    w.obs = evalRecs(s.observed, *s.model);
    witnesses[rng % optWit] = w;
  }
}

// run one state to the end of its path
static void runState(State *sp) {
  State &s = *sp;
  uint64_t n = 0;
  try {
    while (true) {
      step(s);
      st_.insts++;
      if (++s.steps > optSteps) {
        st_.stepLimited++;
        report(s, "nontermination", "path exceeds the step limit", *s.model);
        throw Terminate{2};
      }
      if ((++n & 1023) == 0 && (now() > optTime || (shm && shm->stop))) { st_.unfinished++; throw Terminate{4}; }
    }
  } catch (Terminate &t) {
    switch (t.why) {
    case 0: st_.pathsDone++; recordWitness(s); break;
    case 1: st_.pathsKilledAssume++; break;
    case 2: st_.pathsErr++; break;
    default: break;
    }
  }
  delete sp;
}

static std::string jstr(const std::string &x) {
  std::string r = "\"";
  for (char c : x) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
static std::string jrec(const std::vector<std::pair<uint32_t, uint64_t>> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string("[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
  return r + "]";
}
static void writeLines(const char *dir) {
  std::map<std::string, bool> lines; // file:line -> executed
  for (auto &F : *M) {
    auto it = kfuncs.find(&F);
    int n = 0;
    for (auto &B : F) {
      const bool hit = it != kfuncs.end() && it->second->blocks[n].hit;
      n++;
      for (auto &I : B)
        for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
          if (l->getLine()) lines[l->getFilename().str() + ":" + std::to_string(l->getLine())] |= hit;
    }
  }
  std::ofstream o(std::string(dir) + "/" + std::to_string(getpid()));
  for (auto &p : lines) o << p.second << " " << p.first << "\n";
}
static void writeResult(const std::string &fn) {
  if (const char *dir = getenv("SX_COV")) writeLines(dir);
  if (optProf) {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto &x : forkSites) v.push_back({x.second, x.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "forks %llu at %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
  }
  std::ofstream o(fn + ".tmp");
  o << "{\"insts\":" << st_.insts << ",\"paths\":" << st_.pathsDone << ",\"assumed_away\":" << st_.pathsKilledAssume << ",\"err_paths\":" << st_.pathsErr
    << ",\"forks\":" << st_.forks << ",\"unknown\":" << st_.unknown << ",\"unsupported\":" << st_.unsupported << ",\"step_limited\":" << st_.stepLimited
    << ",\"unfinished\":" << st_.unfinished << ",\"asserts\":" << st_.asserts << ",\"assert_queries\":" << st_.assertQueries << ",\"mem_checks\":" << st_.memChecks
    << ",\"uninit_reads\":" << st_.uninit
    << ",\"queries\":" << g_ss.queries << ",\"z3_calls\":" << g_ss.z3calls << ",\"cvc5_calls\":" << g_ss.intCalls << ",\"cache_hits\":" << g_ss.cacheHits << ",\"model_hits\":" << g_ss.modelHits
    << ",\"unsat\":" << g_ss.unsat << ",\"sat\":" << g_ss.sat << ",\"solver_unknown\":" << g_ss.unknown << ",\"fp_calls\":" << g_ss.fpCalls
    << ",\"sat_calls\":" << g_ss.satCalls << ",\"cross_checked\":" << g_ss.crossChecked << ",\"cross_unknown\":" << g_ss.crossUnknown
    << ",\"solver_s\":" << g_ss.seconds << ",\"solver_max_s\":" << g_ss.maxSeconds << ",\"wall\":" << now();
  o << ",\"errors\":[";
  for (size_t i = 0; i < errors.size(); i++)
    o << (i ? "," : "") << "{\"kind\":" << jstr(errors[i].kind) << ",\"msg\":" << jstr(errors[i].msg) << ",\"where\":" << jstr(errors[i].where) << ",\"inputs\":" << jrec(errors[i].inputs) << "}";
  o << "],\"unsupported_msgs\":{";
  bool first = true;
  for (auto &p : unsupportedMsgs) { o << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
  o << "},\"reach\":{";
  first = true;
  for (size_t i = 0; i < reachNames.size(); i++) { o << (first ? "" : ",") << jstr(reachNames[i]) << ":" << reachCnt[i]; first = false; }
  o << "},\"witnesses\":[";
  for (size_t i = 0; i < witnesses.size(); i++) o << (i ? "," : "") << "{\"in\":" << jrec(witnesses[i].in) << ",\"obs\":" << jrec(witnesses[i].obs) << "}";
  o << "],\"functions\":[";
  first = true;
  for (auto &p : kfuncs)
    if (p.second->entries) { o << (first ? "" : ",") << jstr(demangle(p.first->getName().str())); first = false; }
  o << "]}\n";
  o.close();
  rename((fn + ".tmp").c_str(), fn.c_str());
}

// ---------------------------------------------------------------- module setup
static void initStdParents() {
  auto &m = stdParents;
  const char *E = "_ZTISt9exception", *L = "_ZTISt11logic_error", *R = "_ZTISt13runtime_error";
  m[L] = E; m[R] = E;
  m["_ZTISt9bad_alloc"] = E; m["_ZTISt8bad_cast"] = E; m["_ZTISt10bad_typeid"] = E; m["_ZTISt13bad_exception"] = E; m["_ZTISt17bad_function_call"] = E;
  m["_ZTISt20bad_array_new_length"] = "_ZTISt9bad_alloc";
  m["_ZTISt12length_error"] = L; m["_ZTISt12out_of_range"] = L; m["_ZTISt16invalid_argument"] = L; m["_ZTISt12domain_error"] = L;
  m["_ZTISt11range_error"] = R; m["_ZTISt14overflow_error"] = R; m["_ZTISt15underflow_error"] = R; m["_ZTISt12system_error"] = R;
}
static void initGlobals(State &s) {
  uint64_t fa = FUNCREG;
  for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  std::vector<GlobalVariable *> gs;
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t n = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 16;
    if (!G.hasInitializer()) n = std::max<uint64_t>(n, 64);
    Obj *o = newObj(s, OGlobal, n, strdup(G.getName().str().c_str()), false);
    gaddr[&G] = o->base;
    gs.push_back(&G);
  }
  for (auto &A : M->aliases()) gaddr[&A] = 0;
  for (auto &A : M->aliases()) {
    Constant *c = A.getAliasee();
    gaddr[&A] = evalConst(c).c;
    if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) { gaddr[&A] = gaddr[F]; }
  }
  for (auto &IFn : M->ifuncs()) {
    // GNU ifunc: bind to the portable implementation chosen by the resolver for a CPU without features
    Function *tgt = nullptr;
    if (IFn.getName() == "fptu_scan") tgt = M->getFunction("fptu_scan_unroll");
    if (!tgt) { fprintf(stderr, "unbound ifunc %s\n", IFn.getName().str().c_str()); continue; }
    gaddr[&IFn] = gaddr[tgt];
  }
  for (auto *G : gs)
    if (G->hasInitializer()) {
      storeTyped(s, V(gaddr[G]), evalConst(G->getInitializer()), G->getValueType());
      if (G->isConstant()) {
        int k; uint32_t id;
        decode(gaddr[G], k, id);
        getW(s, k, id)->ro = true;
      }
    }
}

int main(int argc, char **argv) {
  std::string bc;
  bool reachOnly = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--time") optTime = atof(nx().c_str());
    else if (a == "--steps") optSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--workers") optWorkers = atoi(nx().c_str());
    else if (a == "--split") optSplit = atoi(nx().c_str());
    else if (a == "--out") optOut = nx();
    else if (a == "--entry") optEntry = nx();
    else if (a == "--wit") optWit = atoi(nx().c_str());
    else if (a == "--qto") g_queryTimeoutMs = atoi(nx().c_str());
    else if (a == "--prof") optProf = true;
    else if (a == "--cross") g_crossRate = atof(nx().c_str());
    else if (a == "--dump") { g_dumpDir = nx(); g_dumpMax = 40; }
    else if (a == "-v") optVerbose = true;
    else bc = a;
  }
  (void)reachOnly;
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("sx", errs()); return 3; }
  DL = &M->getDataLayout();
  initStdParents();
  State *s = new State();
  s->model = std::make_shared<Model>();
  s->eq = std::make_shared<EqMap>();
  initGlobals(*s);
  Function *entry = M->getFunction(optEntry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  // static constructors, then the harness: run them one by one in the same state
  std::vector<Function *> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> v;
      for (auto &o : arr->operands()) {
        auto *cs = cast<ConstantStruct>(o);
        if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
      }
      std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
      for (auto &p : v) ctors.push_back(p.second);
    }
  for (Function *fn : ctors) {
    pushFrame(*s, fn, {}, nullptr);
    try {
      while (true) { step(*s); st_.insts++; }
    } catch (Terminate &t) {
      if (t.why != 0) { fprintf(stderr, "static constructor %s failed (%d)\n", fn->getName().str().c_str(), t.why); for (auto &e : errors) fprintf(stderr, "%s %s\n", e.msg.c_str(), e.where.c_str()); for (auto &p : unsupportedMsgs) fprintf(stderr, "%s\n", p.first.c_str()); return 3; }
    }
    s->stack.clear();
  }
  std::vector<Val> args;
  pushFrame(*s, entry, args, nullptr);
  s->liveHeap = 0;
  work.push_back(s);
  // breadth-first split
  while (!work.empty() && work.size() < optSplit && optWorkers > 1 && now() < optTime) {
    State *x = work.front();
    work.pop_front();
    // run until it forks or ends
    size_t before = work.size();
    State &ss = *x;
    bool ended = false;
    try {
      while (work.size() == before) {
        step(ss);
        st_.insts++;
        if (++ss.steps > optSteps) { st_.stepLimited++; report(ss, "nontermination", "path exceeds the step limit", *ss.model); throw Terminate{2}; }
        if ((ss.steps & 1023) == 0 && now() > optTime) { st_.unfinished++; throw Terminate{4}; }
      }
    } catch (Terminate &t) {
      ended = true;
      switch (t.why) {
      case 0: st_.pathsDone++; recordWitness(ss); break;
      case 1: st_.pathsKilledAssume++; break;
      case 2: st_.pathsErr++; break;
      default: break;
      }
    }
    if (ended) delete x;
    else work.push_back(x);
  }
  int idx = 0;
  if (!work.empty() && optWorkers > 1) {
    shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (shm) Shared();
    shm->next = 0;
    shm->stop = 0;
    std::vector<State *> init(work.begin(), work.end());
    work.clear();
    writeResult(optOut + ".0.json");
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < optWorkers; w++) {
      pid_t p = fork();
      if (p == 0) {
        st_ = Stats();
        g_ss = SolverStats();
        errors.clear(); errCount.clear(); unsupportedMsgs.clear(); witnesses.clear();
        for (auto &r : reachCnt) r = 0;
        while (true) {
          uint32_t i = shm->next++;
          if (i >= init.size()) break;
          if (now() > optTime) { st_.unfinished++; continue; }
          work.push_back(init[i]);
          while (!work.empty()) {
            State *x = work.back();
            work.pop_back();
            if (now() > optTime) { st_.unfinished++; delete x; continue; }
            runState(x);
          }
        }
        writeResult(optOut + "." + std::to_string(w + 1) + ".json");
        _exit(0);
      }
      pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) {
      int stt;
      waitpid(p, &stt, 0);
      if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad++; fprintf(stderr, "worker ended abnormally: status %x\n", stt); }
    }
    fflush(stdout); fflush(stderr); _exit(bad ? 4 : 0);
  }
  while (!work.empty()) {
    State *x = work.back();
    work.pop_back();
    if (now() > optTime) { st_.unfinished++; delete x; continue; }
    runState(x);
  }
  (void)idx;
  writeResult(optOut + ".0.json");
  fflush(stdout); fflush(stderr);
  _exit(0);
}
