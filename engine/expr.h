// Hash-consed bit-vector expression DAG with a simplifying constructor layer.
#pragma once
#include "llvm/ADT/APInt.h"
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
using llvm::APInt;

enum Kind : uint8_t {
  KConst, KSym, KExtract, KConcat, KZExt, KSExt,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KShl, KLShr, KAShr,
  KAnd, KOr, KXor, KNot, KEq, KUlt, KUle, KSlt, KSle, KIte,
  // IEEE floating point over bit patterns; aux = exponent/significand selector by width
  KFAdd, KFSub, KFMul, KFDiv, KFRem, KFOeq, KFOlt, KFOle, KFIsNan,
  KFToSI, KFToUI, KSIToF, KUIToF, KFExt, KFTrunc, KFRound /*aux: 0 ceil 1 floor 2 trunc 3 rne*/
};

struct Expr {
  Kind k;
  uint32_t w;
  uint32_t id;
  uint32_t aux; // extract low bit / symbol id / rounding selector
  Expr *a, *b, *c;
  APInt cst;
  const std::vector<uint32_t> *syms; // sorted set of symbols (shared)
  // caches
  uint64_t evEpoch = 0;
  APInt evVal;
  void *zbv = nullptr, *zbool = nullptr, *zlit = nullptr;
  bool isConst() const { return k == KConst; }
  Expr() : cst(1, 0), evVal(1, 0) {}
};

struct SymInfo { uint32_t w; std::string name; Expr *e; };
extern std::vector<SymInfo> g_syms;

Expr *mkConst(const APInt &v);
Expr *mkConst(uint32_t w, uint64_t v);
Expr *mkSym(uint32_t w, const std::string &name);
Expr *mkExtract(Expr *e, uint32_t lo, uint32_t w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *e, uint32_t w);
Expr *mkSExt(Expr *e, uint32_t w);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkNot(Expr *e);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkFp(Kind k, uint32_t w, Expr *a, Expr *b, uint32_t aux = 0);
inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(KEq, a, b); }
inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(KAnd, a, b); }
inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(KOr, a, b); }
Expr *mkTrue();
Expr *mkFalse();
bool hasFp(Expr *e);

// assignment of symbols; values of symbols above size() are 0
typedef std::vector<uint64_t> Model;
APInt evalExpr(Expr *e, const Model &m);
APInt fpFold(Kind k, uint32_t w, const APInt &a, const APInt *b, uint32_t aux);
APInt binFold(Kind k, const APInt &a, const APInt &b);
std::string exprStr(Expr *e, int depth = 6);
void bumpEpoch();
