#pragma once
#include "expr.h"
#include <cstdint>
#include <string>
#include <vector>
enum class Sat { Yes, No, Unknown };
struct SolverStats {
  uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknown = 0, unsat = 0, sat = 0, fpCalls = 0, satCalls = 0, crossChecked = 0, crossUnknown = 0, intCalls = 0;
  double seconds = 0, maxSeconds = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
extern double g_crossRate; // fraction of the SAT solver's branch-pruning UNSAT answers re-decided by z3
extern std::string g_dumpDir; // when set, UNSAT queries are dumped here as SMT-LIB2 (sampled)
extern unsigned g_dumpMax;
// Is (conj cons) /\ q satisfiable?  `base` satisfies cons; on Yes, `out` satisfies cons /\ q.
Sat solve(const std::vector<Expr *> &cons, Expr *q, const Model &base, Model &out, bool confirm = false);
