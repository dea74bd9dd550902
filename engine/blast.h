// Bit-blaster from Expr (no floating point) to Sat2, incremental with cone-restricted decisions.
#pragma once
#include "expr.h"
#include "sat.h"
#include <unordered_map>
#include <unordered_set>

class Blaster {
public:
  Sat2 *s = nullptr;
  Blaster() { reset(); }
  ~Blaster() { delete s; }
  size_t vars() const { return s->nVars(); }
  size_t cone() const { return s->coneSize(); } // of the latest query
  size_t mem() const { return s->memWords(); }
  void reset() {
    delete s;
    s = new Sat2();
    bits_.clear();
    range_.clear();
    gate_.clear();
    T = mkLit(s->newVar());
    F = neg(T);
    s->addClause({T});
  }
  // returns SAT/UNSAT/UNKNOWN for the conjunction of roots; on SAT model() gives symbol values
  Sat2::Res check(const std::vector<Expr *> &roots, uint64_t maxConf) {
    std::vector<Lit> as;
    for (Expr *e : roots) as.push_back(blast(e)[0]);
    s->beginQuery();
    std::unordered_set<Expr *> vis;
    for (Expr *e : roots) mark(e, vis);
    return s->solve(as, maxConf);
  }
  uint64_t symVal(uint32_t id) {
    auto it = bits_.find(g_syms[id].e);
    if (it == bits_.end()) return 0;
    uint64_t v = 0;
    for (size_t i = 0; i < it->second.size(); i++)
      if (s->modelVal(var(it->second[i])) == 1) v |= 1ull << i;
    return v;
  }

private:
  typedef std::vector<Lit> Bits;
  Lit T, F;
  std::unordered_map<Expr *, Bits> bits_;
  std::unordered_map<Expr *, std::pair<uint32_t, uint32_t>> range_;
  struct K { uint32_t op; Lit a, b, c; bool operator==(const K &o) const { return op == o.op && a == o.a && b == o.b && c == o.c; } };
  struct H { size_t operator()(const K &k) const { size_t h = k.op; h = h * 1000003 + k.a; h = h * 1000003 + k.b; h = h * 1000003 + k.c; return h ^ (h >> 17); } };
  std::unordered_map<K, Lit, H> gate_;

  void mark(Expr *e, std::unordered_set<Expr *> &vis) {
    if (e->isConst() || !vis.insert(e).second) return;
    auto r = range_[e];
    for (uint32_t v = r.first; v < r.second; v++) s->markRelevant(v);
    if (e->a) mark(e->a, vis);
    if (e->b) mark(e->b, vis);
    if (e->c) mark(e->c, vis);
  }
  Lit And(Lit a, Lit b) {
    if (a == F || b == F || a == neg(b)) return F;
    if (a == T) return b;
    if (b == T || a == b) return a;
    if (a > b) std::swap(a, b);
    K k{1, a, b, 0};
    auto it = gate_.find(k);
    if (it != gate_.end()) return it->second;
    Lit o = mkLit(s->newVar());
    s->addClause({neg(o), a});
    s->addClause({neg(o), b});
    s->addClause({o, neg(a), neg(b)});
    return gate_[k] = o;
  }
  Lit Or(Lit a, Lit b) { return neg(And(neg(a), neg(b))); }
  Lit Xor(Lit a, Lit b) {
    if (a == F) return b;
    if (b == F) return a;
    if (a == T) return neg(b);
    if (b == T) return neg(a);
    if (a == b) return F;
    if (a == neg(b)) return T;
    bool inv = false;
    if (a & 1) { a ^= 1; inv = !inv; }
    if (b & 1) { b ^= 1; inv = !inv; }
    if (a > b) std::swap(a, b);
    K k{2, a, b, 0};
    auto it = gate_.find(k);
    Lit o;
    if (it != gate_.end()) o = it->second;
    else {
      o = mkLit(s->newVar());
      s->addClause({neg(o), a, b});
      s->addClause({neg(o), neg(a), neg(b)});
      s->addClause({o, neg(a), b});
      s->addClause({o, a, neg(b)});
      gate_[k] = o;
    }
    return inv ? neg(o) : o;
  }
  Lit Mux(Lit c, Lit t, Lit f) {
    if (c == T) return t;
    if (c == F) return f;
    if (t == f) return t;
    if (t == neg(f)) return Xor(c, f);
    if (c & 1) { c ^= 1; std::swap(t, f); }
    if (t == T || t == c) return Or(c, f);
    if (t == F || t == neg(c)) return And(neg(c), f);
    if (f == T || f == neg(c)) return Or(neg(c), t);
    if (f == F || f == c) return And(c, t);
    K k{3, c, t, f};
    auto it = gate_.find(k);
    if (it != gate_.end()) return it->second;
    Lit o = mkLit(s->newVar());
    s->addClause({neg(c), neg(t), o});
    s->addClause({neg(c), t, neg(o)});
    s->addClause({c, neg(f), o});
    s->addClause({c, f, neg(o)});
    s->addClause({neg(t), neg(f), o});
    s->addClause({t, f, neg(o)});
    return gate_[k] = o;
  }
  Lit Maj(Lit a, Lit b, Lit c) {
    if (a == b) return a;
    if (a == c) return a;
    if (b == c) return b;
    if (a == neg(b)) return c;
    if (a == neg(c)) return b;
    if (b == neg(c)) return a;
    if (a == T) return Or(b, c);
    if (a == F) return And(b, c);
    if (b == T) return Or(a, c);
    if (b == F) return And(a, c);
    if (c == T) return Or(a, b);
    if (c == F) return And(a, b);
    if (a > b) std::swap(a, b);
    if (b > c) std::swap(b, c);
    if (a > b) std::swap(a, b);
    K k{4, a, b, c};
    auto it = gate_.find(k);
    if (it != gate_.end()) return it->second;
    Lit o = mkLit(s->newVar());
    s->addClause({neg(a), neg(b), o});
    s->addClause({neg(a), neg(c), o});
    s->addClause({neg(b), neg(c), o});
    s->addClause({a, b, neg(o)});
    s->addClause({a, c, neg(o)});
    s->addClause({b, c, neg(o)});
    return gate_[k] = o;
  }
  Bits add(const Bits &a, const Bits &b, Lit c) {
    Bits r(a.size());
    for (size_t i = 0; i < a.size(); i++) {
      r[i] = Xor(Xor(a[i], b[i]), c);
      if (i + 1 < a.size()) c = Maj(a[i], b[i], c);
    }
    return r;
  }
  Bits inv(Bits a) { for (auto &l : a) l = neg(l); return a; }
  Lit ult(const Bits &a, const Bits &b) { // a < b
    Lit r = F;
    for (size_t i = 0; i < a.size(); i++) r = Maj(neg(a[i]), b[i], r);
    return r;
  }
  Lit eq(const Bits &a, const Bits &b) {
    Lit r = T;
    for (size_t i = 0; i < a.size(); i++) r = And(r, neg(Xor(a[i], b[i])));
    return r;
  }
  Bits mux(Lit c, const Bits &t, const Bits &f) {
    Bits r(t.size());
    for (size_t i = 0; i < t.size(); i++) r[i] = Mux(c, t[i], f[i]);
    return r;
  }
  Bits mul(const Bits &a0, const Bits &b0) {
    Bits a = a0, b = b0;
    size_t w = a.size();
    auto cons = [&](const Bits &x) { size_t n = 0; for (Lit l : x) n += (l == T || l == F) ? (l == F ? 2 : 1) : 0; return n; };
    if (cons(a) > cons(b)) std::swap(a, b); // constants drive the rows
    Bits acc(w, F);
    for (size_t i = 0; i < w; i++) {
      if (b[i] == F) continue;
      Bits row(w, F);
      for (size_t j = i; j < w; j++) row[j] = And(a[j - i], b[i]);
      acc = add(acc, row, F);
    }
    return acc;
  }
  void divrem(const Bits &a, const Bits &b, Bits &q, Bits &r) { // restoring division; b==0 gives q=~0, r=a
    size_t w = a.size();
    q.assign(w, F);
    Bits rem(w + 1, F), bb(b);
    bb.push_back(F);
    for (size_t i = w; i-- > 0;) {
      for (size_t j = w; j > 0; j--) rem[j] = rem[j - 1];
      rem[0] = a[i];
      Lit ge = neg(ult(rem, bb));
      Bits d = add(rem, inv(bb), T);
      rem = mux(ge, d, rem);
      q[i] = ge;
    }
    rem.pop_back();
    r = rem;
  }
  Bits shift(Bits a, const Bits &n, int kind) { // 0 shl 1 lshr 2 ashr
    size_t w = a.size();
    Lit fill = kind == 2 ? a[w - 1] : F;
    Lit over = F;
    for (size_t k = 0; k < n.size(); k++) {
      if (k < 31 && (1ull << k) < w) {
        size_t d = 1ull << k;
        Bits t(w);
        for (size_t i = 0; i < w; i++)
          t[i] = kind == 0 ? (i >= d ? a[i - d] : F) : (i + d < w ? a[i + d] : fill);
        a = mux(n[k], t, a);
      } else
        over = Or(over, n[k]);
    }
    // amounts in [w, 2^ceil(log w)) have already shifted everything out for non-powers of two
    Bits z(w, fill);
    return mux(over, z, a);
  }
  const Bits &blast(Expr *e) {
    auto it = bits_.find(e);
    if (it != bits_.end()) return it->second;
    // children first, so that this node's own gates form one variable range
    if (e->a) blast(e->a);
    if (e->b) blast(e->b);
    if (e->c) blast(e->c);
    uint32_t v0 = s->nVars();
    Bits r;
    auto A = [&]() -> const Bits & { return bits_[e->a]; };
    auto B = [&]() -> const Bits & { return bits_[e->b]; };
    switch (e->k) {
    case KConst: for (uint32_t i = 0; i < e->w; i++) r.push_back(e->cst[i] ? T : F); break;
    case KSym: for (uint32_t i = 0; i < e->w; i++) r.push_back(mkLit(s->newVar())); break;
    case KExtract: r.assign(A().begin() + e->aux, A().begin() + e->aux + e->w); break;
    case KConcat: r = B(); r.insert(r.end(), A().begin(), A().end()); break;
    case KZExt: r = A(); r.resize(e->w, F); break;
    case KSExt: r = A(); { Lit m = r.back(); r.resize(e->w, m); } break;
    case KAdd: r = add(A(), B(), F); break;
    case KSub: r = add(A(), inv(B()), T); break;
    case KMul: r = mul(A(), B()); break;
    case KUDiv: { Bits q, m; divrem(A(), B(), q, m); r = q; break; }
    case KURem: { Bits q, m; divrem(A(), B(), q, m); r = m; break; }
    case KSDiv: case KSRem: {
      Bits a = A(), b = B();
      Lit sa = a.back(), sb = b.back();
      Bits z(a.size(), F);
      Bits na = mux(sa, add(z, inv(a), T), a), nb = mux(sb, add(z, inv(b), T), b), q, m;
      divrem(na, nb, q, m);
      if (e->k == KSDiv) r = mux(Xor(sa, sb), add(z, inv(q), T), q);
      else r = mux(sa, add(z, inv(m), T), m);
      break;
    }
    case KShl: r = shift(A(), B(), 0); break;
    case KLShr: r = shift(A(), B(), 1); break;
    case KAShr: r = shift(A(), B(), 2); break;
    case KAnd: { Bits a = A(), b = B(); for (size_t i = 0; i < a.size(); i++) r.push_back(And(a[i], b[i])); break; }
    case KOr: { Bits a = A(), b = B(); for (size_t i = 0; i < a.size(); i++) r.push_back(Or(a[i], b[i])); break; }
    case KXor: { Bits a = A(), b = B(); for (size_t i = 0; i < a.size(); i++) r.push_back(Xor(a[i], b[i])); break; }
    case KNot: r = inv(A()); break;
    case KEq: r = {eq(A(), B())}; break;
    case KUlt: r = {ult(A(), B())}; break;
    case KUle: r = {neg(ult(B(), A()))}; break;
    case KSlt: case KSle: {
      Bits a = A(), b = B();
      a.back() = neg(a.back());
      b.back() = neg(b.back());
      r = {e->k == KSlt ? ult(a, b) : neg(ult(b, a))};
      break;
    }
    case KIte: { Lit c = A()[0]; Bits t = B(), f = bits_[e->c]; r = mux(c, t, f); break; }
    default: abort();
    }
    range_[e] = {v0, s->nVars()};
    return bits_[e] = r;
  }
};
