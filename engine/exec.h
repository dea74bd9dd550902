#pragma once
#include "expr.h"
#include "solver.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val {
  Expr *e = nullptr;
  uint64_t c = 0;
  std::shared_ptr<std::vector<Val>> agg;
};

struct GepTerm { int op; int64_t scale; uint32_t w; };
struct KInst {
  const llvm::Instruction *I;
  unsigned opc;
  int dest = -1;
  uint32_t w = 0;            // result (scalar) width
  std::vector<int> ops;      // operand codes
  std::vector<int> succ;     // successor blocks
  std::vector<std::pair<int, int>> phi; // (pred block, operand code)
  int64_t gepOff = 0;
  std::vector<GepTerm> gep;
  const llvm::Function *callee = nullptr;
};
struct KBlock { std::vector<KInst> insts; bool hit = false; };
struct KFunc {
  const llvm::Function *F;
  int nregs = 0;
  std::vector<KBlock> blocks;
  std::vector<Val> consts;
  uint64_t entries = 0;
};

struct Frame {
  KFunc *f;
  int bb = 0, prev = -1;
  size_t pc = 0;
  std::vector<Val> regs;
  std::vector<Val> varargs;
  uint32_t stackBase = 0; // first stack object id of this frame
  const KInst *call = nullptr; // the call/invoke in the caller
};

enum ObjKind : uint8_t { OGlobal, OStack, OHeap };
// per-byte symbolic values of an object, in copy-on-write chunks; a chunk without storage is uniform
struct SymBytes {
  static constexpr uint64_t C = 128;
  struct Ch { Expr *u = nullptr; std::shared_ptr<std::vector<Expr *>> p; };
  std::vector<Ch> c; // empty: all concrete
  uint64_t n = 0;
  bool empty() const { return c.empty(); }
  void assign(uint64_t size, Expr *u) { n = size; c.assign((size + C - 1) / C, Ch{u, nullptr}); }
  void clear() { c.clear(); c.shrink_to_fit(); }
  Expr *operator[](uint64_t i) const { const Ch &k = c[i / C]; return k.p ? (*k.p)[i % C] : k.u; }
  std::vector<Expr *> &w(uint64_t ci) {
    Ch &k = c[ci];
    if (!k.p) k.p = std::make_shared<std::vector<Expr *>>(std::min(C, n - ci * C), k.u);
    else if (k.p.use_count() > 1) k.p = std::make_shared<std::vector<Expr *>>(*k.p);
    return *k.p;
  }
  void set(uint64_t i, Expr *e) {
    Ch &k = c[i / C];
    if (!k.p && k.u == e) return;
    w(i / C)[i % C] = e;
  }
  void fill(uint64_t off, uint64_t len, Expr *e) {
    for (uint64_t end = off + len; off < end;) {
      const uint64_t ci = off / C, cb = ci * C, ce = std::min(cb + C, n), to = std::min(end, ce);
      if (off == cb && to == ce) { c[ci].u = e; c[ci].p.reset(); }
      else if (c[ci].p || c[ci].u != e) { auto &v = w(ci); std::fill(v.begin() + (off - cb), v.begin() + (to - cb), e); }
      off = to;
    }
  }
  // true if any byte of the range isn't concrete
  bool any(uint64_t off, uint64_t len) const {
    for (uint64_t end = off + len; off < end;) {
      const Ch &k = c[off / C];
      if (k.p) { if ((*k.p)[off % C]) return true; ++off; }
      else { if (k.u) return true; off = (off / C + 1) * C; }
    }
    return false;
  }
};
struct Obj {
  uint64_t base = 0, size = 0;
  ObjKind kind = OGlobal;
  bool ro = false, dead = false;
  uint8_t tag = 0; // 1: malloc 2: exception
  const char *name = "";
  std::vector<uint8_t> b;
  SymBytes s;
};
typedef std::shared_ptr<Obj> ObjP;
struct Page { ObjP o[32]; };

struct InputRec { Expr *e; uint64_t c; uint32_t w; };

struct EqMap { std::unordered_map<Expr *, uint64_t> m; };
struct State {
  std::vector<std::shared_ptr<Frame>> stack;
  std::vector<std::shared_ptr<Page>> pages[3];
  uint32_t nObj[3] = {0, 0, 0};
  std::vector<Expr *> cons;
  std::shared_ptr<Model> model;
  std::shared_ptr<EqMap> eq;
  std::vector<InputRec> inputs;
  std::vector<InputRec> observed;
  std::vector<std::pair<uint64_t, uint64_t>> caught; // exceptions being handled (obj, tinfo)
  uint64_t excObj = 0, excTi = 0;
  uint64_t steps = 0;
  uint32_t depth = 0;
  uint64_t liveHeap = 0;
  int64_t failAlloc = -1; // remaining successful allocations, -1: never fail
  std::vector<int> reach;
  unsigned uninitReads = 0;
};

struct ErrorRec { std::string kind, msg, where; std::vector<std::pair<uint32_t, uint64_t>> inputs; };
