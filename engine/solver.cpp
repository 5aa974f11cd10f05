#include "solver.h"
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>

static Z3_context C;
static Z3_solver S, SFP;
Stats *g_st;
unsigned g_qtimeout = 150000;
const char *g_dump = nullptr;
static std::vector<Expr*> g_vars;   /* by variable index: last VAR expression seen (any width) */

static u64 nowUs() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec * 1000000ULL + t.tv_usec; }

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "ENGINE: z3 error: %s\n", Z3_get_error_msg(c, e)); abort();
}

static Z3_solver mkSolver(const char *logic) {
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_qtimeout);
  Z3_solver_set_params(C, s, p);
  return s;
}

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  S = mkSolver("QF_BV");
  SFP = mkSolver("QF_BVFP");
}

static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast b2bv(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(C, 1);
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s));
}
static Z3_sort fpS(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }

/* 1-bit expressions are Z3 booleans when they come from predicates; two encodings: tb = Bool, t = BV */
static Z3_ast tr(Expr *e);
static Z3_ast trb(Expr *e);   /* w == 1, as Bool */

static bool isPred(Expr *e) {
  if (e->w != 1) return false;
  switch (e->op) {
  case EQ: case ULT: case ULE: case SLT: case SLE: case FCMP: return true;
  case AND: case OR: case NOT: return true;
  default: return false;
  }
}
static std::unordered_map<Expr*, Z3_ast> g_zb;
static Z3_ast trb(Expr *e) {
  auto it = g_zb.find(e);
  if (it != g_zb.end()) return it->second;
  Z3_ast r;
  switch (isPred(e) ? e->op : 255) {
  case EQ: r = Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1])); break;
  case ULT: r = Z3_mk_bvult(C, tr(e->k[0]), tr(e->k[1])); break;
  case ULE: r = Z3_mk_bvule(C, tr(e->k[0]), tr(e->k[1])); break;
  case SLT: r = Z3_mk_bvslt(C, tr(e->k[0]), tr(e->k[1])); break;
  case SLE: r = Z3_mk_bvsle(C, tr(e->k[0]), tr(e->k[1])); break;
  case AND: { Z3_ast a[2] = {trb(e->k[0]), trb(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
  case OR: { Z3_ast a[2] = {trb(e->k[0]), trb(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
  case NOT: r = Z3_mk_not(C, trb(e->k[0])); break;
  case FCMP: {
    Z3_sort s = fpS(e->k[0]->w);
    Z3_ast x = Z3_mk_fpa_to_fp_bv(C, tr(e->k[0]), s), y = Z3_mk_fpa_to_fp_bv(C, tr(e->k[1]), s);
    std::vector<Z3_ast> o;
    if (e->c & 1) o.push_back(Z3_mk_fpa_eq(C, x, y));
    if (e->c & 2) o.push_back(Z3_mk_fpa_gt(C, x, y));
    if (e->c & 4) o.push_back(Z3_mk_fpa_lt(C, x, y));
    if (e->c & 8) { Z3_ast n[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}; o.push_back(Z3_mk_or(C, 2, n)); }
    r = o.empty() ? Z3_mk_false(C) : Z3_mk_or(C, o.size(), o.data());
    break;
  }
  default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
  keep(r);
  g_zb[e] = r;
  return r;
}
static Z3_ast tr(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  if (isPred(e)) r = b2bv(trb(e));
  else switch (e->op) {
  case CONST: r = Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w)); break;
  case VAR: {
    char n[32]; snprintf(n, sizeof n, "v%llu_%d", (unsigned long long)e->c, e->w);
    r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->w));
    break;
  }
  case ADD: r = Z3_mk_bvadd(C, tr(e->k[0]), tr(e->k[1])); break;
  case SUB: r = Z3_mk_bvsub(C, tr(e->k[0]), tr(e->k[1])); break;
  case MUL: r = Z3_mk_bvmul(C, tr(e->k[0]), tr(e->k[1])); break;
  case UDIV: r = Z3_mk_bvudiv(C, tr(e->k[0]), tr(e->k[1])); break;
  case SDIV: r = Z3_mk_bvsdiv(C, tr(e->k[0]), tr(e->k[1])); break;
  case UREM: r = Z3_mk_bvurem(C, tr(e->k[0]), tr(e->k[1])); break;
  case SREM: r = Z3_mk_bvsrem(C, tr(e->k[0]), tr(e->k[1])); break;
  case AND: r = Z3_mk_bvand(C, tr(e->k[0]), tr(e->k[1])); break;
  case OR: r = Z3_mk_bvor(C, tr(e->k[0]), tr(e->k[1])); break;
  case XOR: r = Z3_mk_bvxor(C, tr(e->k[0]), tr(e->k[1])); break;
  case SHL: r = Z3_mk_bvshl(C, tr(e->k[0]), tr(e->k[1])); break;
  case LSHR: r = Z3_mk_bvlshr(C, tr(e->k[0]), tr(e->k[1])); break;
  case ASHR: r = Z3_mk_bvashr(C, tr(e->k[0]), tr(e->k[1])); break;
  case ITE: r = Z3_mk_ite(C, trb(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
  case CONCAT: r = Z3_mk_concat(C, tr(e->k[0]), tr(e->k[1])); break;
  case EXTRACT: r = Z3_mk_extract(C, (unsigned)e->c + e->w - 1, (unsigned)e->c, tr(e->k[0])); break;
  case ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, tr(e->k[0])); break;
  case SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, tr(e->k[0])); break;
  case NOT: r = Z3_mk_bvnot(C, tr(e->k[0])); break;
  case FADD: case FSUB: case FMUL: case FDIV: {
    Z3_sort s = fpS(e->w); Z3_ast rm = Z3_mk_fpa_rne(C);
    Z3_ast x = Z3_mk_fpa_to_fp_bv(C, tr(e->k[0]), s), y = Z3_mk_fpa_to_fp_bv(C, tr(e->k[1]), s);
    Z3_ast f = e->op == FADD ? Z3_mk_fpa_add(C, rm, x, y) : e->op == FSUB ? Z3_mk_fpa_sub(C, rm, x, y)
             : e->op == FMUL ? Z3_mk_fpa_mul(C, rm, x, y) : Z3_mk_fpa_div(C, rm, x, y);
    r = Z3_mk_fpa_to_ieee_bv(C, f); break;
  }
  case SITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), tr(e->k[0]), fpS(e->w))); break;
  case UITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), tr(e->k[0]), fpS(e->w))); break;
  case FPTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), Z3_mk_fpa_to_fp_bv(C, tr(e->k[0]), fpS(e->k[0]->w)), e->w); break;
  case FPTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), Z3_mk_fpa_to_fp_bv(C, tr(e->k[0]), fpS(e->k[0]->w)), e->w); break;
  case FPCAST: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), Z3_mk_fpa_to_fp_bv(C, tr(e->k[0]), fpS(e->k[0]->w)), fpS(e->w))); break;
  default: fprintf(stderr, "ENGINE: untranslatable op %d\n", e->op); abort();
  }
  e->z = keep(r);
  return r;
}

static void collectVars(Expr *e, std::vector<Expr*> &out, u64 gen) {
  if (e->evalGen == gen) return;
  e->evalGen = gen;
  if (e->op == VAR) { out.push_back(e); return; }
  for (int i = 0; i < e->nk; i++) collectVars(e->k[i], out, gen);
}

struct QKey { std::vector<u32> ids; };
struct QHash { size_t operator()(const QKey &k) const { u64 h = k.ids.size(); for (u32 i : k.ids) h = (h ^ i) * 0x9E3779B97F4A7C15ULL + (h >> 27); return h; } };
struct QEq { bool operator()(const QKey &a, const QKey &b) const { return a.ids == b.ids; } };
struct QVal { Res r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<QKey, QVal, QHash, QEq> g_cache;
static std::vector<std::vector<u64>> g_recent; static size_t g_rpos = 0;

Res solve(const std::vector<Expr*> &cs, Expr *q, const std::vector<u64> &m, std::vector<u64> *out) {
  if (isC(q)) { if (q->c && out) *out = m; return q->c ? SAT : UNSAT; }
  /* independence slicing */
  VarSet vs = *q->vs;
  std::vector<Expr*> sl; std::vector<char> used(cs.size(), 0);
  for (bool more = true; more;) {
    more = false;
    for (size_t i = 0; i < cs.size(); i++)
      if (!used[i] && cs[i]->vs->meets(vs)) { used[i] = 1; sl.push_back(cs[i]); vs.add(*cs[i]->vs); more = true; }
  }
  sl.push_back(q);
  QKey key; for (Expr *e : sl) key.ids.push_back(e->id);
  std::sort(key.ids.begin(), key.ids.end());
  key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
  auto it = g_cache.find(key);
  if (it == g_cache.end()) {
    QVal v;
    bool hit = false;
    u64 gen;
    std::vector<Expr*> vars;
    g_gen++; gen = g_gen;
    for (Expr *e : sl) collectVars(e, vars, gen);
    for (size_t i = 0; i < g_recent.size() && !hit; i++) {
      bool all = true;
      g_gen++;
      for (size_t j = sl.size(); j-- > 0 && all;) all = evalExpr(sl[j], g_recent[i]) != 0;
      if (all) {
        hit = true; v.r = SAT; g_st->modelHits++;
        for (Expr *x : vars) v.m.push_back({(u32)x->c, x->c < g_recent[i].size() ? g_recent[i][x->c] & mask(x->w) : 0});
      }
    }
    if (!hit) {
      bool fp = false; for (Expr *e : sl) fp |= e->hasFp;
      Z3_solver s = fp ? SFP : S;
      Z3_solver_reset(C, s);
      for (Expr *e : sl) Z3_solver_assert(C, s, trb(e));
      if (g_dump) {
        static int n = 0; char fn[512]; snprintf(fn, sizeof fn, "%s/q%d-%d.smt2", g_dump, (int)getpid(), n++);
        if (n < 4000) { FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); } }
      }
      u64 t = nowUs();
      Z3_lbool r = Z3_solver_check(C, s);
      u64 took = nowUs() - t;
      __sync_fetch_and_add(&g_st->solverUs, took);
      if (took > g_st->slowest) g_st->slowest = took;
      __sync_fetch_and_add(&g_st->queries, 1);
      v.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (v.r == SAT) {
        __sync_fetch_and_add(&g_st->sat, 1);
        Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
        std::vector<u64> rec = m;
        for (Expr *x : vars) {
          Z3_ast val = nullptr; uint64_t n = 0;
          if (Z3_model_eval(C, mo, tr(x), true, &val) && val) Z3_get_numeral_uint64(C, val, &n);
          v.m.push_back({(u32)x->c, n});
          if (rec.size() <= x->c) rec.resize(x->c + 1, 0);
          rec[x->c] = n;
        }
        Z3_model_dec_ref(C, mo);
        /* the model must satisfy the query under the engine's own evaluator: guards the encoding */
        bool all = true;
        for (Expr *e : sl) if (!evalExpr(e, rec)) all = false;
        if (!all) { fprintf(stderr, "ENGINE: solver model does not satisfy the query\n"); abort(); }
        if (g_recent.size() < 6) g_recent.push_back(rec); else { g_recent[g_rpos] = rec; g_rpos = (g_rpos + 1) % 6; }
      } else if (v.r == UNSAT) __sync_fetch_and_add(&g_st->unsat, 1);
      else __sync_fetch_and_add(&g_st->unknown, 1);
      Z3_solver_reset(C, s);
    }
    it = g_cache.emplace(key, v).first;
  } else __sync_fetch_and_add(&g_st->cacheHits, 1);
  if (it->second.r == SAT && out) {
    std::vector<u64> r = m;
    for (auto &p : it->second.m) { if (r.size() <= p.first) r.resize(p.first + 1, 0); r[p.first] = p.second; }
    *out = r;
  }
  return it->second.r;
}
