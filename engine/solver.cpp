#include "solver.h"
#include "blast.h"
#include "llvm/ADT/SmallString.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <z3.h>
using namespace llvm;
SolverStats g_ss;
unsigned g_queryTimeoutMs = 20000;
double g_crossRate = 0.02;
std::string g_dumpDir;
unsigned g_dumpMax = 0;

static size_t g_resetAt = getenv("SX_RESET") ? atoi(getenv("SX_RESET")) : 40;
static Z3_context C;
static Z3_solver S;
static std::unordered_set<Expr *> asserted;
static Z3_sort fsort(uint32_t w) {
  return w == 32 ? Z3_mk_fpa_sort_32(C) : w == 64 ? Z3_mk_fpa_sort_64(C) : w == 80 ? Z3_mk_fpa_sort(C, 15, 64) : Z3_mk_fpa_sort_128(C);
}
static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error %d: %s\n", (int)e, Z3_get_error_msg(c, e));
  _exit(3);
}
static void newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(C, S, p);
  Z3_params_dec_ref(C, p);
  asserted.clear();
}
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
  newSolver();
}
static Z3_ast toBV(Expr *e);
static Z3_ast toBool(Expr *e);
static Z3_ast rm() { return Z3_mk_fpa_rne(C); }
static Z3_ast f(Expr *e) { return Z3_mk_fpa_to_fp_bv(C, toBV(e), fsort(e->w)); }
static Z3_ast toBV1(Expr *e) {
  Z3_sort s = Z3_mk_bv_sort(C, e->w);
  switch (e->k) {
  case KConst: {
    SmallString<64> str;
    e->cst.toString(str, 10, false);
    return Z3_mk_numeral(C, str.c_str(), s);
  }
  case KSym: return Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->aux), s);
  case KExtract: return Z3_mk_extract(C, e->aux + e->w - 1, e->aux, toBV(e->a));
  case KConcat: return Z3_mk_concat(C, toBV(e->a), toBV(e->b));
  case KZExt: return Z3_mk_zero_ext(C, e->w - e->a->w, toBV(e->a));
  case KSExt: return Z3_mk_sign_ext(C, e->w - e->a->w, toBV(e->a));
  case KAdd: return Z3_mk_bvadd(C, toBV(e->a), toBV(e->b));
  case KSub: return Z3_mk_bvsub(C, toBV(e->a), toBV(e->b));
  case KMul: return Z3_mk_bvmul(C, toBV(e->a), toBV(e->b));
  case KUDiv: return Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b));
  case KSDiv: return Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b));
  case KURem: return Z3_mk_bvurem(C, toBV(e->a), toBV(e->b));
  case KSRem: return Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b));
  case KShl: return Z3_mk_bvshl(C, toBV(e->a), toBV(e->b));
  case KLShr: return Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b));
  case KAShr: return Z3_mk_bvashr(C, toBV(e->a), toBV(e->b));
  case KAnd: return Z3_mk_bvand(C, toBV(e->a), toBV(e->b));
  case KOr: return Z3_mk_bvor(C, toBV(e->a), toBV(e->b));
  case KXor: return Z3_mk_bvxor(C, toBV(e->a), toBV(e->b));
  case KNot: return Z3_mk_bvnot(C, toBV(e->a));
  case KIte: return Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c));
  case KFAdd: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rm(), f(e->a), f(e->b)));
  case KFSub: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rm(), f(e->a), f(e->b)));
  case KFMul: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rm(), f(e->a), f(e->b)));
  case KFDiv: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rm(), f(e->a), f(e->b)));
  case KFRem: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_rem(C, f(e->a), f(e->b)));
  case KFToSI: {
    // out-of-range yields the x86 "indefinite" value, as in the constant folder
    return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f(e->a), e->w);
  }
  case KFToUI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f(e->a), e->w);
  case KSIToF: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rm(), toBV(e->a), fsort(e->w)));
  case KUIToF: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rm(), toBV(e->a), fsort(e->w)));
  case KFExt: case KFTrunc:
    return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rm(), f(e->a), fsort(e->w)));
  case KFRound: {
    Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtp(C) : e->aux == 1 ? Z3_mk_fpa_rtn(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C)
             : e->aux == 3 ? Z3_mk_fpa_rne(C) : Z3_mk_fpa_rna(C);
    return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, m, f(e->a)));
  }
  default: return Z3_mk_ite(C, toBool(e), Z3_mk_unsigned_int(C, 1, s), Z3_mk_unsigned_int(C, 0, s));
  }
}
static Z3_ast toBV(Expr *e) {
  if (!e->zbv) e->zbv = toBV1(e);
  return (Z3_ast)e->zbv;
}
static Z3_ast toBool1(Expr *e) {
  switch (e->k) {
  case KConst: return e->cst.isZero() ? Z3_mk_false(C) : Z3_mk_true(C);
  case KEq: return e->a->w == 1 ? Z3_mk_eq(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b));
  case KUlt: return Z3_mk_bvult(C, toBV(e->a), toBV(e->b));
  case KUle: return Z3_mk_bvule(C, toBV(e->a), toBV(e->b));
  case KSlt: return Z3_mk_bvslt(C, toBV(e->a), toBV(e->b));
  case KSle: return Z3_mk_bvsle(C, toBV(e->a), toBV(e->b));
  case KNot: return Z3_mk_not(C, toBool(e->a));
  case KAnd: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_and(C, 2, x); }
  case KOr: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_or(C, 2, x); }
  case KIte: return Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c));
  case KFOeq: return Z3_mk_fpa_eq(C, f(e->a), f(e->b));
  case KFOlt: return Z3_mk_fpa_lt(C, f(e->a), f(e->b));
  case KFOle: return Z3_mk_fpa_leq(C, f(e->a), f(e->b));
  case KFIsNan: return Z3_mk_fpa_is_nan(C, f(e->a));
  default: return Z3_mk_eq(C, toBV(e), Z3_mk_unsigned_int(C, 1, Z3_mk_bv_sort(C, 1)));
  }
}
static Z3_ast toBool(Expr *e) {
  if (!e->zbool) e->zbool = toBool1(e);
  return (Z3_ast)e->zbool;
}
static Z3_ast lit(Expr *e) {
  if (!e->zlit)
    e->zlit = Z3_mk_const(C, Z3_mk_string_symbol(C, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C));
  if (asserted.insert(e).second) Z3_solver_assert(C, S, Z3_mk_implies(C, (Z3_ast)e->zlit, toBool(e)));
  return (Z3_ast)e->zlit;
}

struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 14695981039346656037ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
// recently found solver models: partial assignments worth trying before calling the solver
static std::deque<std::vector<std::pair<uint32_t, uint64_t>>> recent;

static bool getModel(Z3_solver s, const std::set<uint32_t> &syms, std::vector<std::pair<uint32_t, uint64_t>> &out) {
  Z3_model m = Z3_solver_get_model(C, s);
  Z3_model_inc_ref(C, m);
  for (uint32_t id : syms) {
    Z3_ast v = nullptr;
    Z3_ast t = toBV(g_syms[id].e);
    uint64_t val = 0;
    if (Z3_model_eval(C, m, t, true, &v)) Z3_get_numeral_uint64(C, v, &val);
    out.push_back({id, val});
  }
  Z3_model_dec_ref(C, m);
  return true;
}

static size_t g_varReset = getenv("SX_VRESET") ? atoi(getenv("SX_VRESET")) : 3;
static Blaster *BL;
static bool noBlast = getenv("SX_NOBLAST") != nullptr;
static Z3_lbool z3check(const std::vector<Expr *> &sl, Expr *q) {
  if (asserted.size() > g_resetAt) newSolver();
  std::vector<Z3_ast> as;
  for (auto e : sl) as.push_back(lit(e));
  as.push_back(lit(q));
  return Z3_solver_check_assumptions(C, S, as.size(), as.data());
}
// one-shot check: a fresh bit-vector solver, with nothing left over from earlier queries
static Z3_lbool z3fresh(const std::vector<Expr *> &sl, Expr *q) {
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  for (auto e : sl) Z3_solver_assert(C, s, toBool(e));
  Z3_solver_assert(C, s, toBool(q));
  Z3_lbool r = Z3_solver_check(C, s);
  Z3_solver_dec_ref(C, s);
  return r;
}
// Queries with wide multiplications or divisions: cvc5 over integers (int-blasting), as a subprocess.
static bool hasArith(Expr *e) {
  static std::unordered_map<Expr *, bool> memo;
  if ((e->k == KMul || e->k == KUDiv || e->k == KURem || e->k == KSDiv || e->k == KSRem) && e->w >= 24) return true;
  if (!e->a) return false;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = hasArith(e->a) || (e->b && hasArith(e->b)) || (e->c && hasArith(e->c));
  memo[e] = r;
  return r;
}
static bool noInt = getenv("SX_NOINT") != nullptr;
static Z3_lbool intcheck(const std::vector<Expr *> &sl, Expr *q, const std::set<uint32_t> &syms, std::vector<std::pair<uint32_t, uint64_t>> &out) {
  char fn[] = "/tmp/sxqXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0) return Z3_L_UNDEF;
  FILE *fp = fdopen(fd, "w");
  Z3_solver d = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, d);
  for (auto e : sl) Z3_solver_assert(C, d, toBool(e));
  Z3_solver_assert(C, d, toBool(q));
  fprintf(fp, "(set-logic QF_BV)\n(set-option :produce-models true)\n");
  std::string body = Z3_solver_to_string(C, d);
  Z3_solver_dec_ref(C, d);
  for (const char *op : {"bvudiv_i", "bvurem_i", "bvsdiv_i", "bvsrem_i"}) // z3's names for divisions by non-zero
    for (size_t at; (at = body.find(op)) != std::string::npos;) body.erase(at + 6, 2);
  fprintf(fp, "%s\n(check-sat)\n", body.c_str());
  std::vector<uint32_t> asked;
  for (uint32_t id : syms)
    if (body.find("declare-fun k!" + std::to_string(id) + " ") != std::string::npos) {
      asked.push_back(id);
      fprintf(fp, "(get-value (k!%u))\n", id);
    }
  fclose(fp);
  std::string cmd = std::string("cvc5 --solve-bv-as-int=sum --tlimit=") + std::to_string(g_queryTimeoutMs) + " " + fn + " 2>/dev/null";
  Z3_lbool r = Z3_L_UNDEF;
  if (FILE *p = popen(cmd.c_str(), "r")) {
    char line[512];
    size_t k = 0;
    while (fgets(line, sizeof line, p)) {
      if (!strncmp(line, "unsat", 5)) r = Z3_L_FALSE;
      else if (!strncmp(line, "sat", 3)) r = Z3_L_TRUE;
      else if (r == Z3_L_TRUE && k < asked.size()) {
        if (char *b = strstr(line, "#b")) out.push_back({asked[k++], strtoull(b + 2, nullptr, 2)});
        else if (char *x = strstr(line, "#x")) out.push_back({asked[k++], strtoull(x + 2, nullptr, 16)});
      }
    }
    pclose(p);
    if (r == Z3_L_TRUE && k != asked.size()) r = Z3_L_UNDEF;
  }
  if (getenv("SX_KEEPQ")) fprintf(stderr, "cvc5 %s -> %d\n", fn, (int)r); else unlink(fn);
  return r;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Sat solve(const std::vector<Expr *> &cons, Expr *q, const Model &base, Model &out, bool confirm) {
  g_ss.queries++;
  if (q->isConst()) {
    if (q->cst.isZero()) return Sat::No;
    out = base;
    return Sat::Yes;
  }
  init();
  // independent slice
  std::set<uint32_t> syms(q->syms->begin(), q->syms->end());
  std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) {
      if (used[i]) continue;
      for (uint32_t s : *cons[i]->syms)
        if (syms.count(s)) { used[i] = 1; break; }
      if (used[i]) {
        ch = true;
        syms.insert(cons[i]->syms->begin(), cons[i]->syms->end());
      }
    }
  }
  std::vector<Expr *> sl;
  std::vector<uint32_t> key;
  for (size_t i = 0; i < cons.size(); i++)
    if (used[i]) { sl.push_back(cons[i]); key.push_back(cons[i]->id); }
  std::sort(key.begin(), key.end());
  key.push_back(q->id);
  auto apply = [&](const std::vector<std::pair<uint32_t, uint64_t>> &m) {
    out = base;
    for (auto &p : m) {
      if (out.size() <= p.first) out.resize(p.first + 1, 0);
      out[p.first] = p.second;
    }
  };
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Sat::Yes) apply(it->second.m);
    return it->second.r;
  }
  // try recent models
  bool anyFp = hasFp(q);
  for (auto e : sl) anyFp = anyFp || hasFp(e);
  for (auto &m : recent) {
    Model t = base;
    for (auto &p : m)
      if (syms.count(p.first)) {
        if (t.size() <= p.first) t.resize(p.first + 1, 0);
        t[p.first] = p.second;
      }
    if (evalExpr(q, t).isZero()) continue;
    bool ok = true;
    for (auto e : sl)
      if (evalExpr(e, t).isZero()) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      out = t;
      CacheEnt ce{Sat::Yes, {}};
      for (uint32_t s : syms) ce.m.push_back({s, s < t.size() ? t[s] : 0});
      cache.emplace(std::move(key), std::move(ce));
      return Sat::Yes;
    }
  }
  double t0 = now();
  if (!anyFp && !noBlast) {
    if (!BL) BL = new Blaster();
    if (BL->vars() > 4000 + g_varReset * BL->cone() || BL->mem() > 60000000) BL->reset();
    std::vector<Expr *> roots(sl);
    roots.push_back(q);
    bool arith = !noInt && hasArith(q);
    for (auto e : sl) arith = arith || (!noInt && hasArith(e));
    Sat2::Res br = BL->check(roots, arith ? 2000 : 60000);
    if (br == Sat2::UNKNOWN && arith) {
      CacheEnt ce;
      Z3_lbool ir = intcheck(sl, q, syms, ce.m);
      g_ss.intCalls++;
      if (ir == Z3_L_TRUE) { // believed only if the model satisfies the query under our own evaluator
        apply(ce.m);
        bool ok = !evalExpr(q, out).isZero();
        for (auto e : sl) ok = ok && !evalExpr(e, out).isZero();
        if (ok) {
          recent.push_front(ce.m);
          if (recent.size() > 12) recent.pop_back();
        } else ir = Z3_L_UNDEF;
      }
      if (ir != Z3_L_UNDEF) {
        (ir == Z3_L_TRUE ? g_ss.sat : g_ss.unsat)++;
        ce.r = ir == Z3_L_TRUE ? Sat::Yes : Sat::No;
        double dt = now() - t0;
        g_ss.seconds += dt;
        if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
        Sat rr = ce.r;
        cache.emplace(std::move(key), std::move(ce));
        return rr;
      }
      br = BL->check(roots, 60000);
    }
    if (br != Sat2::UNKNOWN) {
      g_ss.satCalls++;
      CacheEnt ce;
      if (br == Sat2::SAT) {
        g_ss.sat++;
        ce.r = Sat::Yes;
        for (uint32_t id : syms) ce.m.push_back({id, BL->symVal(id)});
        apply(ce.m);
        recent.push_front(ce.m);
        if (recent.size() > 12) recent.pop_back();
        bool ok = !evalExpr(q, out).isZero();
        for (auto e : sl) ok = ok && !evalExpr(e, out).isZero();
        if (!ok) { fprintf(stderr, "bit-blaster/evaluator mismatch\n%s\n", exprStr(q, 20).c_str()); _exit(3); }
      } else {
        g_ss.unsat++;
        ce.r = Sat::No;
        // UNSAT answers that decide a property are always confirmed by z3; branch pruning is sampled
        static uint64_t rng = 88172645463325252ull;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        if (confirm || (rng >> 11) * (1.0 / 9007199254740992.0) < g_crossRate) {
          Z3_lbool zr = z3fresh(sl, q);
          g_ss.z3calls++;
          g_ss.crossChecked++;
          if (zr == Z3_L_TRUE) { fprintf(stderr, "bit-blaster/z3 disagreement\n%s\n", exprStr(q, 20).c_str()); _exit(3); }
          if (zr == Z3_L_UNDEF) { g_ss.crossUnknown++; newSolver(); }
        }
      }
      double dt = now() - t0;
      g_ss.seconds += dt;
      if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
      Sat rr = ce.r;
      if (cache.size() > 400000) cache.clear();
      cache.emplace(std::move(key), std::move(ce));
      return rr;
    }
  }
  Z3_lbool r;
  Z3_solver used_s = S;
  bool fresh = anyFp;
  if (fresh) {
    g_ss.fpCalls++;
    used_s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
    Z3_solver_inc_ref(C, used_s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
    Z3_solver_set_params(C, used_s, p);
    Z3_params_dec_ref(C, p);
    for (auto e : sl) Z3_solver_assert(C, used_s, toBool(e));
    Z3_solver_assert(C, used_s, toBool(q));
    r = Z3_solver_check(C, used_s);
  } else {
    r = z3check(sl, q);
    used_s = S;
  }
  double dt = now() - t0;
  g_ss.z3calls++;
  g_ss.seconds += dt;
  if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
  CacheEnt ce;
  if (r == Z3_L_TRUE) {
    g_ss.sat++;
    ce.r = Sat::Yes;
    getModel(used_s, syms, ce.m);
    apply(ce.m);
    recent.push_front(ce.m);
    if (recent.size() > 12) recent.pop_back();
    // guard against translation mistakes: the model must satisfy the slice under our own evaluator
    if (evalExpr(q, out).isZero()) {
      if (!anyFp) { fprintf(stderr, "solver/evaluator mismatch\n%s\n", exprStr(q, 20).c_str()); _exit(3); }
      ce.r = Sat::Unknown; ce.m.clear(); g_ss.unknown++;
    }
  } else if (r == Z3_L_FALSE) {
    g_ss.unsat++;
    ce.r = Sat::No;
    if (!g_dumpDir.empty() && g_dumpMax && (g_ss.unsat % 7) == 1) {
      g_dumpMax--;
      Z3_solver d = Z3_mk_simple_solver(C);
      Z3_solver_inc_ref(C, d);
      for (auto e : sl) Z3_solver_assert(C, d, toBool(e));
      Z3_solver_assert(C, d, toBool(q));
      std::string fn = g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_ss.unsat) + ".smt2";
      if (FILE *fp = fopen(fn.c_str(), "w")) {
        fprintf(fp, "%s\n(check-sat)\n", Z3_solver_to_string(C, d));
        fclose(fp);
      }
      Z3_solver_dec_ref(C, d);
    }
  } else {
    g_ss.unknown++;
    ce.r = Sat::Unknown;
    if (!fresh) newSolver();
  }
  if (fresh) Z3_solver_dec_ref(C, used_s);
  Sat rr = ce.r;
  if (cache.size() > 400000) cache.clear();
  cache.emplace(std::move(key), std::move(ce));
  return rr;
}
