#include "expr.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/SmallString.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace llvm;

std::vector<SymInfo> g_syms;
static uint32_t g_nextId = 1;

static size_t hashKey(Kind k, uint32_t w, uint32_t aux, Expr *a, Expr *b, Expr *c) {
  size_t h = k * 1000003u + w * 131u + aux;
  auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0);
  return h;
}
static std::unordered_multimap<size_t, Expr *> g_tab;
static std::unordered_map<uint64_t, Expr *> g_small[65];
static std::unordered_multimap<size_t, Expr *> g_big;

static const std::vector<uint32_t> *internSyms(std::vector<uint32_t> v) {
  static std::set<std::vector<uint32_t>> pool;
  return &*pool.insert(std::move(v)).first;
}
static const std::vector<uint32_t> *noSyms() {
  static const std::vector<uint32_t> *p = internSyms({});
  return p;
}
static const std::vector<uint32_t> *uni(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  static std::map<std::pair<const void *, const void *>, const std::vector<uint32_t> *> memo;
  auto key = std::make_pair((const void *)x, (const void *)y);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  return memo[key] = internSyms(std::move(r));
}

Expr *mkConst(const APInt &v) {
  uint32_t w = v.getBitWidth();
  if (w <= 64) return mkConst(w, v.getZExtValue());
  size_t h = hash_value(v);
  auto r = g_big.equal_range(h);
  for (auto i = r.first; i != r.second; ++i)
    if (i->second->w == w && i->second->cst == v) return i->second;
  Expr *e = new Expr();
  e->k = KConst; e->w = w; e->id = g_nextId++; e->aux = 0; e->a = e->b = e->c = nullptr;
  e->cst = v; e->syms = noSyms();
  g_big.emplace(h, e);
  return e;
}
Expr *mkConst(uint32_t w, uint64_t v) {
  if (w > 64) return mkConst(APInt(w, v));
  if (w < 64) v &= (1ull << w) - 1;
  Expr *&e = g_small[w][v];
  if (!e) {
    e = new Expr();
    e->k = KConst; e->w = w; e->id = g_nextId++; e->aux = 0; e->a = e->b = e->c = nullptr;
    e->cst = APInt(w, v); e->syms = noSyms();
  }
  return e;
}
Expr *mkTrue() { static Expr *t = mkConst(1, 1); return t; }
Expr *mkFalse() { static Expr *t = mkConst(1, 0); return t; }

Expr *mkSym(uint32_t w, const std::string &name) {
  Expr *e = new Expr();
  e->k = KSym; e->w = w; e->id = g_nextId++; e->aux = (uint32_t)g_syms.size();
  e->a = e->b = e->c = nullptr;
  e->syms = internSyms({e->aux});
  g_syms.push_back({w, name, e});
  return e;
}

static Expr *raw(Kind k, uint32_t w, uint32_t aux, Expr *a, Expr *b = nullptr, Expr *c = nullptr) {
  size_t h = hashKey(k, w, aux, a, b, c);
  auto r = g_tab.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) {
    Expr *e = i->second;
    if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c) return e;
  }
  Expr *e = new Expr();
  e->k = k; e->w = w; e->id = g_nextId++; e->aux = aux; e->a = a; e->b = b; e->c = c;
  const std::vector<uint32_t> *s = a ? a->syms : noSyms();
  if (b) s = uni(s, b->syms);
  if (c) s = uni(s, c->syms);
  e->syms = s;
  g_tab.emplace(h, e);
  return e;
}

static bool isC(Expr *e) { return e->k == KConst; }
static bool iteConst(Expr *e) { return e->k == KIte && isC(e->b) && isC(e->c); }

Expr *mkExtract(Expr *e, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
  case KConst: return mkConst(e->cst.extractBits(w, lo));
  case KExtract: return mkExtract(e->a, lo + e->aux, w);
  case KConcat: {
    uint32_t bw = e->b->w;
    if (lo >= bw) return mkExtract(e->a, lo - bw, w);
    if (lo + w <= bw) return mkExtract(e->b, lo, w);
    return mkConcat(mkExtract(e->a, 0, lo + w - bw), mkExtract(e->b, lo, bw - lo));
  }
  case KZExt: {
    uint32_t aw = e->a->w;
    if (lo >= aw) return mkConst(w, 0);
    if (lo + w <= aw) return mkExtract(e->a, lo, w);
    return mkZExt(mkExtract(e->a, lo, aw - lo), w);
  }
  case KSExt: {
    uint32_t aw = e->a->w;
    if (lo + w <= aw) return mkExtract(e->a, lo, w);
    if (lo < aw) return mkSExt(mkExtract(e->a, lo, aw - lo), w);
    return mkSExt(mkExtract(e->a, aw - 1, 1), w);
  }
  case KAnd: case KOr: case KXor:
    return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
  case KNot: return mkNot(mkExtract(e->a, lo, w));
  case KIte:
    if (isC(e->b) || isC(e->c) || w <= 8)
      return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
    break;
  case KAdd: case KSub: case KMul:
    if (lo == 0 && (isC(e->b) || isC(e->a) || e->a->k == KZExt || e->a->k == KSExt || e->a->k == KConcat))
      return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
    break;
  default: break;
  }
  return raw(KExtract, w, lo, e);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  uint32_t w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) {
    APInt v = lo->cst.zext(w);
    v |= hi->cst.zext(w).shl(lo->w);
    return mkConst(v);
  }
  if (isC(hi) && hi->cst.isZero()) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a, lo->aux, w);
  // whole-symbol low part: Extract(x, n..) ++ x is impossible, but sign/zero forms are common
  if (hi->k == KConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == KZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (lo->k == KConcat) {
    Expr *m = nullptr;
    Expr *lh = lo->a;
    if (isC(hi) && isC(lh)) m = mkConcat(hi, lh);
    else if (hi->k == KExtract && lh->k == KExtract && hi->a == lh->a && hi->aux == lh->aux + lh->w)
      m = mkExtract(hi->a, lh->aux, hi->w + lh->w);
    if (m) return mkConcat(m, lo->b);
  }
  if (hi->k == KIte && lo->k == KIte && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (iteConst(hi) && isC(lo)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (iteConst(lo) && isC(hi)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return raw(KConcat, w, 0, hi, lo);
}

Expr *mkZExt(Expr *e, uint32_t w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(e->cst.zext(w));
  if (e->k == KZExt) return mkZExt(e->a, w);
  if (iteConst(e)) return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
  return raw(KZExt, w, 0, e);
}
Expr *mkSExt(Expr *e, uint32_t w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(e->cst.sext(w));
  if (e->k == KSExt) return mkSExt(e->a, w);
  if (e->k == KZExt) return mkZExt(e->a, w);
  if (iteConst(e)) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
  return raw(KSExt, w, 0, e);
}

Expr *mkNot(Expr *e) {
  if (isC(e)) return mkConst(~e->cst);
  if (e->k == KNot) return e->a;
  if (e->w == 1) {
    if (e->k == KUlt) return mkBin(KUle, e->b, e->a);
    if (e->k == KUle) return mkBin(KUlt, e->b, e->a);
    if (e->k == KSlt) return mkBin(KSle, e->b, e->a);
    if (e->k == KSle) return mkBin(KSlt, e->b, e->a);
    if (e->k == KIte) return mkIte(e->a, mkNot(e->b), mkNot(e->c));
  }
  if (iteConst(e)) return mkIte(e->a, mkNot(e->b), mkNot(e->c));
  return raw(KNot, e->w, 0, e);
}

Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (isC(c)) return c->cst.isZero() ? f : t;
  if (t == f) return t;
  if (c->k == KNot) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->cst.isZero() ? mkNot(c) : c;
    if (isC(t)) return t->cst.isZero() ? mkAnd(mkNot(c), f) : mkOr(c, f);
    if (isC(f)) return f->cst.isZero() ? mkAnd(c, t) : mkOr(mkNot(c), t);
  }
  if (t->k == KIte && t->a == c) t = t->b;
  if (f->k == KIte && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->k == KIte && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  return raw(KIte, t->w, 0, c, t, f);
}

APInt binFold(Kind k, const APInt &a, const APInt &b) {
  uint32_t w = a.getBitWidth();
  switch (k) {
  case KAdd: return a + b;
  case KSub: return a - b;
  case KMul: return a * b;
  case KUDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case KURem: return b.isZero() ? a : a.urem(b);
  case KSDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case KSRem: return b.isZero() ? a : a.srem(b);
  case KShl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case KLShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case KAShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
  case KAnd: return a & b;
  case KOr: return a | b;
  case KXor: return a ^ b;
  case KEq: return APInt(1, a == b);
  case KUlt: return APInt(1, a.ult(b));
  case KUle: return APInt(1, a.ule(b));
  case KSlt: return APInt(1, a.slt(b));
  case KSle: return APInt(1, a.sle(b));
  default: abort();
  }
}

struct Seg { uint32_t w; Expr *e; }; // e==nullptr: zero bits
static bool segs(Expr *e, std::vector<Seg> &out) { // least significant first
  switch (e->k) {
  case KConst:
    if (e->cst.isZero()) { out.push_back({e->w, nullptr}); return true; }
    {
      // split a constant into zero / non-zero runs only at its outer zero ranges
      uint32_t tz = e->cst.countr_zero(), lz = e->cst.countl_zero();
      if (tz) out.push_back({tz, nullptr});
      out.push_back({e->w - tz - lz, mkConst(e->cst.extractBits(e->w - tz - lz, tz))});
      if (lz) out.push_back({lz, nullptr});
    }
    return true;
  case KZExt: segs(e->a, out); out.push_back({e->w - e->a->w, nullptr}); return true;
  case KConcat: segs(e->b, out); segs(e->a, out); return true;
  default: out.push_back({e->w, e}); return true;
  }
}
// combine a|b (or a+b) when no bit is possibly set in both
static Expr *disjoint(Expr *a, Expr *b) {
  if (!(a->k == KZExt || a->k == KConcat || isC(a)) || !(b->k == KZExt || b->k == KConcat || isC(b))) return nullptr;
  std::vector<Seg> x, y;
  segs(a, x); segs(b, y);
  std::vector<Expr *> out;
  size_t i = 0, j = 0;
  uint32_t xo = 0, yo = 0;
  while (i < x.size() && j < y.size()) {
    uint32_t n = std::min(x[i].w - xo, y[j].w - yo);
    if (x[i].e && y[j].e) return nullptr;
    Expr *s = x[i].e ? mkExtract(x[i].e, xo, n) : y[j].e ? mkExtract(y[j].e, yo, n) : mkConst(n, 0);
    out.push_back(s);
    xo += n; yo += n;
    if (xo == x[i].w) { i++; xo = 0; }
    if (yo == y[j].w) { j++; yo = 0; }
  }
  Expr *r = out[0];
  for (size_t q = 1; q < out.size(); q++) r = mkConcat(out[q], r);
  return r;
}

static uint32_t knownLeadingZeros(Expr *e) {
  switch (e->k) {
  case KConst: return e->cst.countl_zero();
  case KZExt: return e->w - e->a->w + knownLeadingZeros(e->a);
  case KConcat: { uint32_t n = knownLeadingZeros(e->a); return n == e->a->w ? n + knownLeadingZeros(e->b) : n; }
  case KIte: return std::min(knownLeadingZeros(e->b), knownLeadingZeros(e->c));
  case KAnd: return std::max(knownLeadingZeros(e->a), knownLeadingZeros(e->b));
  case KOr: case KXor: return std::min(knownLeadingZeros(e->a), knownLeadingZeros(e->b));
  default: return 0;
  }
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d %u %u\n", k, a->w, b->w); abort(); }
  uint32_t w = a->w;
  if (isC(a) && isC(b)) return mkConst(binFold(k, a->cst, b->cst));
  // push through ite with constant leaves
  if (isC(b) && iteConst(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  if (isC(a) && iteConst(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  bool comm = k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq;
  if (comm) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  switch (k) {
  case KAdd:
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, a->a, mkConst(a->b->cst + b->cst));
      if (a->k == KSub && isC(a->a)) return mkBin(KSub, mkConst(a->a->cst + b->cst), a->b);
    } else {
      if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
      if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
      if (a->k == KSub && a->b == b) return a->a;
      if (b->k == KSub && b->b == a) return b->a;
    }
    if (Expr *d = disjoint(a, b)) return d;
    break;
  case KSub:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) return mkBin(KAdd, a, mkConst(-b->cst));
    if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
    if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KSub, a, b->a), mkConst(-b->b->cst));
    if (a->k == KAdd && a->a == b) return a->b;
    if (a->k == KAdd && a->b == b) return a->a;
    break;
  case KMul:
    if (isC(b)) {
      if (b->cst.isZero()) return b;
      if (b->cst.isOne()) return a;
      if (b->cst.isPowerOf2()) return mkBin(KShl, a, mkConst(w, b->cst.logBase2()));
      if (a->k == KAdd && isC(a->b))
        return mkBin(KAdd, mkBin(KMul, a->a, b), mkConst(a->b->cst * b->cst));
    }
    break;
  case KUDiv:
    if (isC(b)) {
      if (b->cst.isOne()) return a;
      if (b->cst.isPowerOf2()) return mkBin(KLShr, a, mkConst(w, b->cst.logBase2()));
      uint32_t lz = std::min(knownLeadingZeros(a), (uint32_t)b->cst.countl_zero());
      if (lz && lz < w) return mkZExt(mkBin(KUDiv, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
    }
    break;
  case KURem:
    if (isC(b)) {
      if (b->cst.isOne()) return mkConst(w, 0);
      if (b->cst.isPowerOf2()) return mkZExt(mkExtract(a, 0, b->cst.logBase2()), w);
      uint32_t lz = std::min(knownLeadingZeros(a), (uint32_t)b->cst.countl_zero());
      if (lz && lz < w) return mkZExt(mkBin(KURem, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
    }
    break;
  case KSDiv: case KSRem:
    if (isC(b) && !b->cst.isNegative() && knownLeadingZeros(a) >= 1)
      return mkBin(k == KSDiv ? KUDiv : KURem, a, b);
    break;
  case KShl:
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      if (b->cst.uge(w)) return mkConst(w, 0);
      uint32_t n = b->cst.getZExtValue();
      return mkConcat(mkExtract(a, 0, w - n), mkConst(n, 0));
    }
    break;
  case KLShr:
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      if (b->cst.uge(w)) return mkConst(w, 0);
      uint32_t n = b->cst.getZExtValue();
      return mkZExt(mkExtract(a, n, w - n), w);
    }
    break;
  case KAShr:
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      uint32_t n = b->cst.uge(w) ? w - 1 : b->cst.getZExtValue();
      return mkSExt(mkExtract(a, n, w - n), w);
    }
    break;
  case KAnd:
    if (a == b) return a;
    if (isC(b)) {
      if (b->cst.isZero()) return b;
      if (b->cst.isAllOnes()) return a;
      if (a->k == KAnd && isC(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->cst & b->cst));
      if (b->cst.isShiftedMask()) {
        uint32_t tz = b->cst.countr_zero(), lz = b->cst.countl_zero();
        Expr *m = mkExtract(a, tz, w - tz - lz);
        if (tz) m = mkConcat(m, mkConst(tz, 0));
        return mkZExt(m, w);
      }
    }
    if (a->k == KNot && a->a == b) return mkConst(w, 0);
    if (b->k == KNot && b->a == a) return mkConst(w, 0);
    if (a->k == KZExt && b->k == KZExt) {
      uint32_t m = std::min(a->a->w, b->a->w);
      return mkZExt(mkBin(KAnd, mkExtract(a, 0, m), mkExtract(b, 0, m)), w);
    }
    if (a->k == KZExt && a->a->w < w && !isC(b))
      return mkZExt(mkBin(KAnd, a->a, mkExtract(b, 0, a->a->w)), w);
    if (b->k == KZExt && b->a->w < w)
      return mkZExt(mkBin(KAnd, mkExtract(a, 0, b->a->w), b->a), w);
    if (w == 1 && a->k == KAnd && (a->a == b || a->b == b)) return a;
    if (w == 1 && b->k == KAnd && (b->a == a || b->b == a)) return b;
    break;
  case KOr:
    if (a == b) return a;
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      if (b->cst.isAllOnes()) return b;
    }
    if (a->k == KNot && a->a == b) return mkConst(APInt::getAllOnes(w));
    if (b->k == KNot && b->a == a) return mkConst(APInt::getAllOnes(w));
    if (w > 1)
      if (Expr *d = disjoint(a, b)) return d;
    if (a->k == KZExt && b->k == KZExt) {
      uint32_t m = std::max(a->a->w, b->a->w);
      if (m < w) return mkZExt(mkBin(KOr, mkZExt(a->a, m), mkZExt(b->a, m)), w);
    }
    break;
  case KXor:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) {
      if (b->cst.isZero()) return a;
      if (b->cst.isAllOnes()) return mkNot(a);
      if (a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(a->b->cst ^ b->cst));
    }
    if (w == 1) return mkNot(mkEq(a, b));
    break;
  case KEq:
    if (a == b) return mkTrue();
    if (w == 1) {
      if (isC(b)) return b->cst.isZero() ? mkNot(a) : a;
      if (a->k == KNot && a->a == b) return mkFalse();
      if (b->k == KNot && b->a == a) return mkFalse();
    }
    if (isC(b)) {
      switch (a->k) {
      case KZExt: {
        uint32_t aw = a->a->w;
        if (b->cst.getActiveBits() > aw) return mkFalse();
        return mkEq(a->a, mkConst(b->cst.trunc(aw)));
      }
      case KSExt: {
        uint32_t aw = a->a->w;
        APInt t = b->cst.trunc(aw);
        if (t.sext(w) != b->cst) return mkFalse();
        return mkEq(a->a, mkConst(t));
      }
      case KConcat: {
        Expr *l = mkEq(a->b, mkExtract(b, 0, a->b->w));
        if (isC(l) && l->cst.isZero()) return l;
        return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), l);
      }
      case KAdd:
        if (isC(a->b)) return mkEq(a->a, mkConst(b->cst - a->b->cst));
        break;
      case KSub:
        if (isC(a->a)) return mkEq(a->b, mkConst(a->a->cst - b->cst));
        if (b->cst.isZero()) return mkEq(a->a, a->b);
        break;
      case KXor:
        if (isC(a->b)) return mkEq(a->a, mkConst(b->cst ^ a->b->cst));
        if (b->cst.isZero()) return mkEq(a->a, a->b);
        break;
      case KNot: return mkEq(a->a, mkConst(~b->cst));
      case KIte:
        if (isC(a->b)) {
          if (a->b == b) return mkOr(a->a, mkEq(a->c, b));
          return mkAnd(mkNot(a->a), mkEq(a->c, b));
        }
        if (isC(a->c)) {
          if (a->c == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
          return mkAnd(a->a, mkEq(a->b, b));
        }
        break;
      case KOr:
        if (b->cst.isZero()) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
        break;
      default: break;
      }
    } else {
      if (a->k == KZExt && b->k == KZExt) {
        uint32_t m = std::max(a->a->w, b->a->w);
        if (m < w) return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
      }
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == KAdd && b->k == KAdd && isC(a->b) && isC(b->b)) {
        if (a->a == b->a) return a->b == b->b ? mkTrue() : mkFalse();
        return mkEq(a->a, mkBin(KAdd, b->a, mkConst(b->b->cst - a->b->cst)));
      }
      if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w)
        return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->k == KZExt && b->k == KConcat) { Expr *t = a; a = b; b = t; }
      if (a->k == KConcat && b->k == KZExt) {
        uint32_t m = a->b->w;
        return mkAnd(mkEq(a->a, mkExtract(b, m, a->a->w)), mkEq(a->b, mkExtract(b, 0, m)));
      }
      if (a->id > b->id) std::swap(a, b);
    }
    return raw(KEq, 1, 0, a, b);
  case KUlt:
    if (a == b) return mkFalse();
    if (isC(b)) {
      if (b->cst.isZero()) return mkFalse();
      if (b->cst.isOne()) return mkEq(a, mkConst(w, 0));
      if (b->cst.isAllOnes()) return mkNot(mkEq(a, b));
      uint32_t lz = knownLeadingZeros(a);
      if (lz) {
        if (lz == w) return mkTrue();
        if (b->cst.getActiveBits() > w - lz) return mkTrue();
        return mkBin(KUlt, mkExtract(a, 0, w - lz), mkConst(b->cst.trunc(w - lz)));
      }
    } else if (isC(a)) {
      if (a->cst.isAllOnes()) return mkFalse();
      if (a->cst.isZero()) return mkNot(mkEq(b, a));
      uint32_t lz = knownLeadingZeros(b);
      if (lz) {
        if (lz == w) return mkFalse();
        if (a->cst.getActiveBits() > w - lz) return mkFalse();
        return mkBin(KUlt, mkConst(a->cst.trunc(w - lz)), mkExtract(b, 0, w - lz));
      }
    } else {
      uint32_t lz = std::min(knownLeadingZeros(a), knownLeadingZeros(b));
      if (lz && lz < w) return mkBin(KUlt, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
    }
    return raw(KUlt, 1, 0, a, b);
  case KUle:
    if (a == b) return mkTrue();
    if (isC(b)) {
      if (b->cst.isAllOnes()) return mkTrue();
      return mkBin(KUlt, a, mkConst(b->cst + 1));
    }
    if (isC(a)) {
      if (a->cst.isZero()) return mkTrue();
      return mkBin(KUlt, mkConst(a->cst - 1), b);
    }
    {
      uint32_t lz = std::min(knownLeadingZeros(a), knownLeadingZeros(b));
      if (lz && lz < w) return mkBin(KUle, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
    }
    return raw(KUle, 1, 0, a, b);
  case KSlt: case KSle: {
    if (a == b) return k == KSle ? mkTrue() : mkFalse();
    bool an = knownLeadingZeros(a) >= 1, bn = knownLeadingZeros(b) >= 1;
    if (an && bn) return mkBin(k == KSlt ? KUlt : KUle, a, b);
    if (k == KSlt && isC(b) && b->cst.isZero()) return mkExtract(a, w - 1, 1);
    if (k == KSlt && isC(a) && a->cst.isAllOnes()) return mkNot(mkExtract(b, w - 1, 1));
    if (an && isC(b) && b->cst.isNegative()) return mkFalse();
    if (bn && isC(a) && a->cst.isNegative()) return mkTrue();
    if (a->k == KSExt && isC(b)) {
      uint32_t aw = a->a->w;
      if (b->cst.isSignedIntN(aw)) return mkBin(k, a->a, mkConst(b->cst.trunc(aw)));
      return b->cst.isNegative() ? mkFalse() : mkTrue();
    }
    if (b->k == KSExt && isC(a)) {
      uint32_t bw = b->a->w;
      if (a->cst.isSignedIntN(bw)) return mkBin(k, mkConst(a->cst.trunc(bw)), b->a);
      return a->cst.isNegative() ? mkTrue() : mkFalse();
    }
    if (k == KSle) {
      if (isC(b)) return b->cst.isMaxSignedValue() ? mkTrue() : mkBin(KSlt, a, mkConst(b->cst + 1));
      if (isC(a)) return a->cst.isMinSignedValue() ? mkTrue() : mkBin(KSlt, mkConst(a->cst - 1), b);
    }
    return raw(k, 1, 0, a, b);
  }
  default: break;
  }
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  return raw(k, w, 0, a, b);
}

// ---- floating point -------------------------------------------------------
static const fltSemantics &sem(uint32_t w) {
  return w == 32 ? APFloat::IEEEsingle() : w == 64 ? APFloat::IEEEdouble()
       : w == 80 ? APFloat::x87DoubleExtended() : w == 16 ? APFloat::IEEEhalf() : APFloat::IEEEquad();
}
APInt fpFold(Kind k, uint32_t w, const APInt &a, const APInt *b, uint32_t aux) {
  bool lost;
  switch (k) {
  case KFAdd: case KFSub: case KFMul: case KFDiv: case KFRem: {
    APFloat x(sem(w), a), y(sem(w), *b);
    auto rm = APFloat::rmNearestTiesToEven;
    if (k == KFAdd) x.add(y, rm); else if (k == KFSub) x.subtract(y, rm);
    else if (k == KFMul) x.multiply(y, rm); else if (k == KFDiv) x.divide(y, rm); else x.mod(y);
    return x.bitcastToAPInt();
  }
  case KFOeq: case KFOlt: case KFOle: {
    APFloat x(sem(a.getBitWidth()), a), y(sem(a.getBitWidth()), *b);
    auto c = x.compare(y);
    bool r = k == KFOeq ? c == APFloat::cmpEqual : k == KFOlt ? c == APFloat::cmpLessThan
             : c == APFloat::cmpLessThan || c == APFloat::cmpEqual;
    return APInt(1, r);
  }
  case KFIsNan: return APInt(1, APFloat(sem(a.getBitWidth()), a).isNaN());
  case KFToSI: case KFToUI: {
    APFloat x(sem(a.getBitWidth()), a);
    APSInt r(w, k == KFToUI);
    auto st = x.convertToInteger(r, APFloat::rmTowardZero, &lost);
    if (st & APFloat::opInvalidOp) { // x86-like indefinite value
      return APInt::getSignedMinValue(w);
    }
    return r;
  }
  case KSIToF: case KUIToF: {
    APFloat x(sem(w));
    x.convertFromAPInt(a, k == KSIToF, APFloat::rmNearestTiesToEven);
    return x.bitcastToAPInt();
  }
  case KFExt: case KFTrunc: {
    APFloat x(sem(a.getBitWidth()), a);
    x.convert(sem(w), APFloat::rmNearestTiesToEven, &lost);
    return x.bitcastToAPInt();
  }
  case KFRound: {
    APFloat x(sem(w), a);
    x.roundToIntegral(aux == 0 ? APFloat::rmTowardPositive : aux == 1 ? APFloat::rmTowardNegative
                      : aux == 2 ? APFloat::rmTowardZero : aux == 3 ? APFloat::rmNearestTiesToEven : APFloat::rmNearestTiesToAway);
    return x.bitcastToAPInt();
  }
  default: abort();
  }
}
Expr *mkFp(Kind k, uint32_t w, Expr *a, Expr *b, uint32_t aux) {
  if (isC(a) && (!b || isC(b))) return mkConst(fpFold(k, w, a->cst, b ? &b->cst : nullptr, aux));
  if (b && isC(b) && iteConst(a)) return mkIte(a->a, mkFp(k, w, a->b, b, aux), mkFp(k, w, a->c, b, aux));
  if (!b && iteConst(a)) return mkIte(a->a, mkFp(k, w, a->b, b, aux), mkFp(k, w, a->c, b, aux));
  return raw(k, w, aux, a, b);
}
bool hasFp(Expr *e) {
  static std::unordered_map<Expr *, bool> memo;
  if (e->k >= KFAdd) return true;
  if (!e->a) return false;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = hasFp(e->a) || (e->b && hasFp(e->b)) || (e->c && hasFp(e->c));
  memo[e] = r;
  return r;
}

// ---- evaluation -----------------------------------------------------------
static uint64_t g_epoch = 1;
void bumpEpoch() { g_epoch++; }
static const APInt &ev(Expr *e, const Model &m) {
  if (e->k == KConst) return e->cst;
  if (e->evEpoch == g_epoch) return e->evVal;
  APInt r(1, 0);
  switch (e->k) {
  case KSym: r = APInt(e->w, e->aux < m.size() ? m[e->aux] : 0); break;
  case KExtract: r = ev(e->a, m).extractBits(e->w, e->aux); break;
  case KConcat: r = ev(e->b, m).zext(e->w); r |= ev(e->a, m).zext(e->w).shl(e->b->w); break;
  case KZExt: r = ev(e->a, m).zext(e->w); break;
  case KSExt: r = ev(e->a, m).sext(e->w); break;
  case KNot: r = ~ev(e->a, m); break;
  case KIte: r = ev(e->a, m).isZero() ? ev(e->c, m) : ev(e->b, m); break;
  case KAnd:
    if (e->w == 1) { r = ev(e->a, m); if (!r.isZero()) r = ev(e->b, m); break; }
    r = ev(e->a, m) & ev(e->b, m); break;
  default:
    if (e->k >= KFAdd) {
      APInt x = ev(e->a, m);
      if (e->b) { APInt y = ev(e->b, m); r = fpFold(e->k, e->w, x, &y, e->aux); }
      else r = fpFold(e->k, e->w, x, nullptr, e->aux);
    } else {
      APInt x = ev(e->a, m);
      r = binFold(e->k, x, ev(e->b, m));
    }
  }
  e->evEpoch = g_epoch;
  e->evVal = std::move(r);
  return e->evVal;
}
APInt evalExpr(Expr *e, const Model &m) {
  // the caller bumps the epoch whenever the model changes identity; here always for safety
  g_epoch++;
  return ev(e, m);
}

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"const","sym","extract","concat","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","fnan","ftosi","ftoui","sitof","uitof","fext","ftrunc","fround"};
  if (e->k == KConst) { SmallString<32> s; e->cst.toString(s, 16, false); return std::string("0x") + s.c_str() + ":" + std::to_string(e->w); }
  if (e->k == KSym) return g_syms[e->aux].name + ":" + std::to_string(e->w);
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->k];
  if (e->k == KExtract) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
  if (e->k == KZExt || e->k == KSExt) s += std::to_string(e->w);
  s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
