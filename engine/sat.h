// Small incremental CDCL SAT solver (two watched literals, 1-UIP, VSIDS, phase saving, Luby restarts).
// Decisions are restricted to the variables marked relevant for the current query.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <vector>
typedef uint32_t Lit;
static inline Lit mkLit(uint32_t v, bool neg = false) { return v * 2 + neg; }
static inline Lit neg(Lit l) { return l ^ 1; }
static inline uint32_t var(Lit l) { return l >> 1; }

class Sat2 {
public:
  enum Res { SAT, UNSAT, UNKNOWN };
  uint64_t conflicts = 0, decisions = 0, props = 0;
  uint32_t nVars() const { return (uint32_t)assign_.size(); }
  uint32_t newVar() {
    uint32_t v = nVars();
    assign_.push_back(2);
    level_.push_back(0);
    reason_.push_back(NOREASON);
    act_.push_back(0);
    phase_.push_back(1); // default: false
    seen_.push_back(0);
    heapPos_.push_back(-1);
    relevant_.push_back(0);
    watches_.emplace_back();
    watches_.emplace_back();
    return v;
  }
  bool ok() const { return ok_; }
  size_t coneSize() const { return relList_.size(); }
  size_t memWords() const { return mem_.size(); }
  size_t nClauses() const { return nClauses_; }
  // clauses are added at decision level 0
  bool addClause(std::vector<Lit> c) {
    if (!ok_) return false;
    cancelUntil(0);
    std::sort(c.begin(), c.end());
    size_t j = 0;
    Lit prev = ~0u;
    for (size_t i = 0; i < c.size(); i++) {
      uint8_t v = value(c[i]);
      if (v == 1 || (prev != ~0u && c[i] == neg(prev))) return true;
      if (v != 0 && c[i] != prev) c[j++] = prev = c[i];
    }
    c.resize(j);
    if (c.empty()) return ok_ = false;
    if (c.size() == 1) {
      enqueue(c[0], NOREASON);
      return ok_ = (propagate() == NOREASON);
    }
    attach(alloc(c, false));
    return true;
  }
  void beginQuery() {
    cancelUntil(0);
    for (uint32_t v : relList_) relevant_[v] = 0;
    relList_.clear();
    for (uint32_t v : heap_) heapPos_[v] = -1;
    heap_.clear();
  }
  void markRelevant(uint32_t v) {
    if (!relevant_[v]) {
      relevant_[v] = 1;
      relList_.push_back(v);
    }
  }
  uint8_t modelVal(uint32_t v) const { return assign_[v]; } // 1 true, 0 false, 2 unassigned
  void setPhase(uint32_t v, bool b) { phase_[v] = !b; }
  Res solve(const std::vector<Lit> &assumps, uint64_t maxConflicts) {
    if (!ok_) return UNSAT;
    cancelUntil(0);
    for (uint32_t v : relList_)
      if (assign_[v] == 2) insertHeap(v);
    uint64_t start = conflicts;
    int restart = 0;
    while (true) {
      uint64_t lim = luby(restart++) * 64;
      Res r = search(assumps, lim);
      if (r != UNKNOWN) return r;
      if (conflicts - start > maxConflicts) return UNKNOWN;
      if (learnts_.size() > maxLearnts_) { cancelUntil(0); reduceDB(); }
    }
  }

private:
  static const uint32_t NOREASON = ~0u;
  struct Watch { uint32_t cref; Lit blocker; };
  std::vector<uint32_t> mem_; // [size<<1|learnt][act][lits...]
  std::vector<uint8_t> assign_, phase_, seen_, relevant_;
  std::vector<uint32_t> level_, reason_;
  std::vector<double> act_;
  std::vector<int> heapPos_;
  std::vector<uint32_t> heap_, relList_;
  std::vector<std::vector<Watch>> watches_;
  std::vector<Lit> trail_;
  std::vector<uint32_t> lim_;
  size_t qhead_ = 0, nClauses_ = 0, maxLearnts_ = 20000;
  std::vector<uint32_t> learnts_;
  double inc_ = 1;
  bool ok_ = true;

  uint8_t value(Lit l) const { uint8_t a = assign_[var(l)]; return a == 2 ? 2 : a ^ (l & 1); }
  uint32_t csize(uint32_t c) const { return mem_[c] >> 1; }
  Lit *lits(uint32_t c) { return &mem_[c + 2]; }
  uint32_t alloc(const std::vector<Lit> &c, bool learnt) {
    uint32_t r = (uint32_t)mem_.size();
    mem_.push_back((uint32_t)c.size() << 1 | learnt);
    mem_.push_back(0);
    mem_.insert(mem_.end(), c.begin(), c.end());
    nClauses_++;
    return r;
  }
  void attach(uint32_t c) {
    Lit *l = lits(c);
    watches_[neg(l[0])].push_back({c, l[1]});
    watches_[neg(l[1])].push_back({c, l[0]});
  }
  void enqueue(Lit l, uint32_t r) {
    uint32_t v = var(l);
    assign_[v] = !(l & 1);
    level_[v] = (uint32_t)lim_.size();
    reason_[v] = r;
    trail_.push_back(l);
  }
  uint32_t propagate() {
    while (qhead_ < trail_.size()) {
      Lit p = trail_[qhead_++];
      props++;
      auto &ws = watches_[p];
      size_t i = 0, j = 0, n = ws.size();
      while (i < n) {
        Watch w = ws[i++];
        if (value(w.blocker) == 1) { ws[j++] = w; continue; }
        uint32_t c = w.cref;
        Lit *l = lits(c);
        Lit np = neg(p);
        if (l[0] == np) std::swap(l[0], l[1]);
        if (l[0] != w.blocker && value(l[0]) == 1) { ws[j++] = {c, l[0]}; continue; }
        uint32_t sz = csize(c);
        bool found = false;
        for (uint32_t k = 2; k < sz; k++)
          if (value(l[k]) != 0) {
            std::swap(l[1], l[k]);
            watches_[neg(l[1])].push_back({c, l[0]});
            found = true;
            break;
          }
        if (found) continue;
        ws[j++] = {c, l[0]};
        if (value(l[0]) == 0) {
          while (i < n) ws[j++] = ws[i++];
          ws.resize(j);
          qhead_ = trail_.size();
          return c;
        }
        enqueue(l[0], c);
      }
      ws.resize(j);
    }
    return NOREASON;
  }
  void cancelUntil(uint32_t lev) {
    if (lim_.size() <= lev) return;
    for (size_t i = trail_.size(); i-- > lim_[lev];) {
      uint32_t v = var(trail_[i]);
      phase_[v] = !assign_[v];
      assign_[v] = 2;
      if (relevant_[v] && heapPos_[v] < 0) insertHeap(v);
    }
    trail_.resize(lim_[lev]);
    qhead_ = trail_.size();
    lim_.resize(lev);
  }
  void bump(uint32_t v) {
    if ((act_[v] += inc_) > 1e100) {
      for (auto &a : act_) a *= 1e-100;
      inc_ *= 1e-100;
    }
    if (heapPos_[v] >= 0) up(heapPos_[v]);
  }
  void insertHeap(uint32_t v) {
    if (heapPos_[v] >= 0) return;
    heapPos_[v] = (int)heap_.size();
    heap_.push_back(v);
    up(heapPos_[v]);
  }
  void up(int i) {
    uint32_t v = heap_[i];
    while (i > 0) {
      int p = (i - 1) / 2;
      if (act_[heap_[p]] >= act_[v]) break;
      heap_[i] = heap_[p];
      heapPos_[heap_[i]] = i;
      i = p;
    }
    heap_[i] = v;
    heapPos_[v] = i;
  }
  void down(int i) {
    uint32_t v = heap_[i];
    int n = (int)heap_.size();
    while (true) {
      int c = 2 * i + 1;
      if (c >= n) break;
      if (c + 1 < n && act_[heap_[c + 1]] > act_[heap_[c]]) c++;
      if (act_[heap_[c]] <= act_[v]) break;
      heap_[i] = heap_[c];
      heapPos_[heap_[i]] = i;
      i = c;
    }
    heap_[i] = v;
    heapPos_[v] = i;
  }
  uint32_t popHeap() {
    uint32_t v = heap_[0];
    heapPos_[v] = -1;
    uint32_t l = heap_.back();
    heap_.pop_back();
    if (!heap_.empty()) { heap_[0] = l; heapPos_[l] = 0; down(0); }
    return v;
  }
  static uint64_t luby(int x) {
    int size, seq;
    for (size = 1, seq = 0; size < x + 1; seq++, size = 2 * size + 1) {}
    while (size - 1 != x) { size = (size - 1) >> 1; seq--; x = x % size; }
    return 1ull << seq;
  }
  bool redundant(Lit p) { // every antecedent literal is already seen
    uint32_t r = reason_[var(p)];
    if (r == NOREASON) return false;
    Lit *l = lits(r);
    for (uint32_t k = 1; k < csize(r); k++)
      if (!seen_[var(l[k])] && level_[var(l[k])] > 0) return false;
    return true;
  }
  void analyze(uint32_t confl, std::vector<Lit> &out, uint32_t &bt) {
    int path = 0;
    Lit p = ~0u;
    out.assign(1, 0);
    size_t idx = trail_.size();
    do {
      Lit *l = lits(confl);
      for (uint32_t k = (p == ~0u) ? 0 : 1; k < csize(confl); k++) {
        uint32_t v = var(l[k]);
        if (!seen_[v] && level_[v] > 0) {
          bump(v);
          seen_[v] = 1;
          if (level_[v] >= lim_.size()) path++;
          else out.push_back(l[k]);
        }
      }
      while (!seen_[var(trail_[--idx])]) {}
      p = trail_[idx];
      confl = reason_[var(p)];
      seen_[var(p)] = 0;
      path--;
    } while (path > 0);
    out[0] = neg(p);
    std::vector<Lit> all(out);
    size_t j = 1;
    for (size_t i = 1; i < out.size(); i++)
      if (!redundant(out[i])) out[j++] = out[i];
    out.resize(j);
    bt = 0;
    if (out.size() > 1) {
      size_t m = 1;
      for (size_t i = 2; i < out.size(); i++)
        if (level_[var(out[i])] > level_[var(out[m])]) m = i;
      std::swap(out[1], out[m]);
      bt = level_[var(out[1])];
    }
    for (Lit l : all) seen_[var(l)] = 0;
  }
  Res search(const std::vector<Lit> &assumps, uint64_t lim) {
    uint64_t n = 0;
    std::vector<Lit> learnt;
    while (true) {
      uint32_t c = propagate();
      if (c != NOREASON) {
        conflicts++;
        n++;
        if (lim_.empty()) { ok_ = false; return UNSAT; }
        uint32_t bt;
        analyze(c, learnt, bt);
        cancelUntil(bt);
        if (learnt.size() == 1) enqueue(learnt[0], NOREASON);
        else {
          uint32_t cr = alloc(learnt, true);
          learnts_.push_back(cr);
          attach(cr);
          enqueue(learnt[0], cr);
        }
        inc_ *= 1.0 / 0.95;
        continue;
      }
      if (n >= lim) { cancelUntil(0); return UNKNOWN; }
      Lit next = ~0u;
      while (lim_.size() < assumps.size()) {
        Lit p = assumps[lim_.size()];
        uint8_t v = value(p);
        if (v == 1) lim_.push_back((uint32_t)trail_.size());
        else if (v == 0) return UNSAT;
        else { next = p; break; }
      }
      if (next == ~0u) {
        while (!heap_.empty()) {
          uint32_t v = popHeap();
          if (assign_[v] == 2) { next = mkLit(v, phase_[v]); break; }
        }
        if (next == ~0u) return SAT;
        decisions++;
      }
      lim_.push_back((uint32_t)trail_.size());
      enqueue(next, NOREASON);
    }
  }
  void reduceDB() { // drop the older half of the long learnt clauses (level 0, so none is a reason that matters)
    std::vector<uint32_t> keep;
    std::vector<char> drop;
    size_t half = learnts_.size() / 2;
    std::vector<uint32_t> del;
    for (size_t i = 0; i < learnts_.size(); i++) {
      if (i < half && csize(learnts_[i]) > 2) del.push_back(learnts_[i]);
      else keep.push_back(learnts_[i]);
    }
    std::sort(del.begin(), del.end());
    for (auto &ws : watches_) {
      size_t j = 0;
      for (auto &w : ws)
        if (!std::binary_search(del.begin(), del.end(), w.cref)) ws[j++] = w;
      ws.resize(j);
    }
    for (uint32_t v = 0; v < nVars(); v++)
      if (reason_[v] != NOREASON && assign_[v] != 2) reason_[v] = NOREASON; // level 0 only
    learnts_ = keep;
  }
};
