/* Bit-vector expressions: hash-consed, simplified on construction, widths 1..64.
   Floating point operations are carried as operations on IEEE bit patterns. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <string>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, NOT,
  FADD, FSUB, FMUL, FDIV, FCMP, SITOFP, UITOFP, FPTOSI, FPTOUI, FPCAST
};

static const int MAXVARS = 1024;
struct VarSet {
  u64 b[MAXVARS/64];
  void clear() { memset(b, 0, sizeof b); }
  void add(const VarSet &o) { for (int i = 0; i < MAXVARS/64; i++) b[i] |= o.b[i]; }
  bool meets(const VarSet &o) const { for (int i = 0; i < MAXVARS/64; i++) if (b[i] & o.b[i]) return true; return false; }
};

struct Expr {
  u8 op, w, nk; u8 hasFp;
  u32 id;
  u64 c;
  Expr *k[3];
  const VarSet *vs;
  Z3_ast z;
  u64 evalGen, evalVal;
};

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VSHash { size_t operator()(const VarSet &v) const { u64 h = 0; for (u64 x : v.b) h = h * 0x9E3779B97F4A7C15ULL + x + (h >> 29); return h; } };
struct VSEq { bool operator()(const VarSet &a, const VarSet &b) const { return !memcmp(a.b, b.b, sizeof a.b); } };

struct EKey { u8 op, w; u64 c; Expr *k[3]; };
struct EKHash { size_t operator()(const EKey &e) const {
  u64 h = e.op * 131 + e.w; h = h * 0x9E3779B97F4A7C15ULL + e.c;
  for (int i = 0; i < 3; i++) { h ^= h >> 31; h = h * 0x9E3779B97F4A7C15ULL + (u64)e.k[i]; }
  return h ^ (h >> 32); } };
struct EKEq { bool operator()(const EKey &a, const EKey &b) const {
  return a.op == b.op && a.w == b.w && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };

extern std::unordered_map<EKey, Expr*, EKHash, EKEq> g_cons;
extern u32 g_nexpr;
extern u64 g_gen;

Expr *mkConst(u64 v, unsigned w);
Expr *mkVar(unsigned idx, unsigned w);
Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 imm = 0);
Expr *mkNot(Expr *a);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
static inline bool isC(Expr *e) { return e->op == CONST; }
u64 foldOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 imm, bool *ok);
u64 evalExpr(Expr *e, const std::vector<u64> &m);   /* values of variables by index; missing = 0 */
std::string showExpr(Expr *e, int depth = 6);
