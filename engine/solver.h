/* Satisfiability of path conditions, decided by Z3 (QF_BV / QF_BVFP). */
#pragma once
#include "expr.h"

struct Stats {
  u64 paths, forks, insts, queries, sat, unsat, unknown, cacheHits, modelHits, solverUs, slowest, maxDepth, bugs, engineErrs, asserts, tests, killed, states, xchecks, xdiffs;
};
extern Stats *g_st;
extern unsigned g_qtimeout;      /* ms per query */
extern const char *g_dump;       /* directory for SMT-LIB dumps, or null */

enum Res { UNSAT, SAT, UNKNOWN };
/* Is (conjunction of cs restricted to what is connected with q) && q satisfiable?
   cs must be satisfiable on its own, with model `m` a witness.
   On SAT *out = m with the connected variables replaced. */
Res solve(const std::vector<Expr*> &cs, Expr *q, const std::vector<u64> &m, std::vector<u64> *out);
void solverInit();
