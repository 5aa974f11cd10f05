#include "expr.h"

std::unordered_map<EKey, Expr*, EKHash, EKEq> g_cons;
u32 g_nexpr = 0;
u64 g_gen = 1;
static std::unordered_map<VarSet, const VarSet*, VSHash, VSEq> g_vs;

static const VarSet *internVS(const VarSet &v) {
  auto it = g_vs.find(v);
  if (it != g_vs.end()) return it->second;
  VarSet *n = new VarSet(v);
  g_vs.emplace(v, n);
  return n;
}

static Expr *raw(Op op, unsigned w, u64 c, Expr *a, Expr *b, Expr *d) {
  EKey key{(u8)op, (u8)w, c, {a, b, d}};
  auto it = g_cons.find(key);
  if (it != g_cons.end()) return it->second;
  Expr *e = new Expr;
  e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
  e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
  e->id = ++g_nexpr; e->z = nullptr; e->evalGen = 0; e->evalVal = 0;
  e->hasFp = op >= FADD;
  for (int i = 0; i < e->nk; i++) e->hasFp |= e->k[i]->hasFp;
  if (op == VAR) {
    if (c >= (u64)MAXVARS) { fprintf(stderr, "ENGINE: too many symbolic variables\n"); abort(); }
    VarSet v; v.clear(); v.b[c / 64] |= 1ULL << (c % 64); e->vs = internVS(v);
  } else if (e->nk == 0) { VarSet v; v.clear(); e->vs = internVS(v); }
  else if (e->nk == 1) e->vs = a->vs;
  else {
    const VarSet *s = a->vs; bool same = true;
    for (int i = 1; i < e->nk; i++) if (e->k[i]->vs != s) same = false;
    if (same) e->vs = s;
    else { VarSet v = *a->vs; for (int i = 1; i < e->nk; i++) v.add(*e->k[i]->vs); e->vs = internVS(v); }
  }
  g_cons.emplace(key, e);
  return e;
}

Expr *mkConst(u64 v, unsigned w) { return raw(CONST, w, v & mask(w), nullptr, nullptr, nullptr); }
Expr *mkVar(unsigned idx, unsigned w) { return raw(VAR, w, idx, nullptr, nullptr, nullptr); }

static double toD(u64 v, unsigned w) {
  if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
static u64 fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
  u64 v; memcpy(&v, &d, 8); return v;
}

u64 foldOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 imm, bool *ok) {
  *ok = true;
  u64 m = mask(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  /* division by zero as in SMT-LIB: never reached by programs, the engine checks the divisor first */
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sx(a, kw) < sx(b, kw);
  case SLE: return sx(a, kw) <= sx(b, kw);
  case NOT: return ~a & m;
  case ZEXT: return a;
  case SEXT: return (u64)sx(a, kw) & m;
  case EXTRACT: return (a >> imm) & m;
  case FADD: return fromD(w == 32 ? (float)toD(a, w) + (float)toD(b, w) : toD(a, w) + toD(b, w), w);
  case FSUB: return fromD(w == 32 ? (float)toD(a, w) - (float)toD(b, w) : toD(a, w) - toD(b, w), w);
  case FMUL: return fromD(w == 32 ? (float)toD(a, w) * (float)toD(b, w) : toD(a, w) * toD(b, w), w);
  case FDIV: return fromD(w == 32 ? (float)toD(a, w) / (float)toD(b, w) : toD(a, w) / toD(b, w), w);
  case FCMP: {
    double x = toD(a, kw), y = toD(b, kw); bool un = std::isnan(x) || std::isnan(y);
    /* imm: llvm predicate bits, 1 = equal, 2 = greater, 4 = less, 8 = unordered */
    return ((imm & 8) && un) || (!un && (((imm & 1) && x == y) || ((imm & 2) && x > y) || ((imm & 4) && x < y)));
  }
  case SITOFP: { i64 x = sx(a, kw); if (w == 32) { float f = (float)x; return fromD(f, 32); } return fromD((double)x, 64); }
  case UITOFP: { if (w == 32) { float f = (float)a; return fromD(f, 32); } return fromD((double)a, 64); }
  case FPTOSI: { double d = toD(a, kw); if (!(d > -9.3e18 && d < 9.3e18)) return 0; return (u64)(i64)d & m; }
  case FPTOUI: { double d = toD(a, kw); if (!(d > -1 && d < 1.85e19)) return 0; return (u64)d & m; }
  case FPCAST: return fromD(toD(a, kw), w);
  default: *ok = false; return 0;
  }
}

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->op == NOT) return a->k[0];
  if (a->w == 1) {
    switch (a->op) {
    case ULT: return mk(ULE, 1, a->k[1], a->k[0]);
    case ULE: return mk(ULT, 1, a->k[1], a->k[0]);
    case SLT: return mk(SLE, 1, a->k[1], a->k[0]);
    case SLE: return mk(SLT, 1, a->k[1], a->k[0]);
    default: break;
    }
  }
  return raw(NOT, a->w, 0, a, nullptr, nullptr);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
  case EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->c, w);
  case CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    break;
  }
  case ZEXT: {
    unsigned kw = a->k[0]->w;
    if (lo >= kw) return mkConst(0, w);
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    return mk(ZEXT, w, mkExtract(a->k[0], lo, kw - lo));
  }
  case SEXT: {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    if (lo == 0 && w > kw) return mk(SEXT, w, a->k[0]);
    break;
  }
  case AND: case OR: case XOR:
    return mk((Op)a->op, w, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case NOT:
    return mkNot(mkExtract(a->k[0], lo, w));
  case ADD: case SUB: case MUL:
    if (lo == 0) return mk((Op)a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  /* no push into ITE: bytes of a stored value must merge again when they are loaded together */
  case LSHR:
    if (isC(a->k[1]) && a->k[1]->c + lo + w <= a->w) return mkExtract(a->k[0], lo + (unsigned)a->k[1]->c, w);
    break;
  case SHL:
    if (isC(a->k[1])) {
      u64 s = a->k[1]->c;
      if (lo + w <= s) return mkConst(0, w);
      if (lo >= s) return mkExtract(a->k[0], lo - (unsigned)s, w);
    }
    break;
  default: break;
  }
  return raw(EXTRACT, w, lo, a, nullptr, nullptr);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mk(ZEXT, w, lo);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return mkExtract(lo->k[0], (unsigned)lo->c, w);
  /* x = lo part of a wider value whose low end is a plain sub-expression */
  if (hi->op == EXTRACT && hi->k[0]->op != CONST && hi->c == lo->w && mkExtract(hi->k[0], 0, lo->w) == lo)
    return mkExtract(hi->k[0], 0, w);
  if (hi->op == ZEXT) /* keep zero bits on the outside */
    return mk(ZEXT, w, mkConcat(hi->k[0], lo));
  if (lo->op == CONCAT) { /* right-assoc merge: (hi . a) . b  */
    Expr *a = lo->k[0];
    if (hi->op == EXTRACT && a->op == EXTRACT && hi->k[0] == a->k[0] && hi->c == a->c + a->w)
      return mkConcat(mkExtract(a->k[0], (unsigned)a->c, hi->w + a->w), lo->k[1]);
    if (isC(hi) && isC(a)) return mkConcat(mkConst((hi->c << a->w) | a->c, hi->w + a->w), lo->k[1]);
  }
  return raw(CONCAT, w, 0, hi, lo, nullptr);
}

/* an ITE tree whose leaves are all constants, at most n of them */
static bool constTree(Expr *e, int &n) {
  if (isC(e)) return --n >= 0;
  return e->op == ITE && constTree(e->k[1], n) && constTree(e->k[2], n);
}
static Expr *pushIn(Op op, unsigned w, Expr *a, Expr *b, u64 imm) {
  if (isC(a)) return mk(op, w, a, b, nullptr, imm);
  return mk(ITE, w, a->k[0], pushIn(op, w, a->k[1], b, imm), pushIn(op, w, a->k[2], b, imm));
}
static bool isComm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u64 imm) {
  if (op == NOT) return mkNot(a);
  if (op == EXTRACT) return mkExtract(a, (unsigned)imm, w);
  if (op == CONCAT) return mkConcat(a, b);
  if (op == ITE) {
    if (isC(a)) return a->c ? b : c;
    if (b == c) return b;
    if (a->op == NOT) return mk(ITE, w, a->k[0], c, b);
    if (w == 1 && isC(b) && isC(c)) return b->c ? a : mkNot(a);
    if (w == 1 && isC(b)) return b->c ? mk(OR, 1, a, c) : mk(AND, 1, mkNot(a), c);
    if (w == 1 && isC(c)) return c->c ? mk(OR, 1, mkNot(a), b) : mk(AND, 1, a, b);
    if (b->op == ITE && b->k[0] == a) b = b->k[1];
    if (c->op == ITE && c->k[0] == a) c = c->k[2];
    if (c->op == ITE && c->k[1] == b) return mk(ITE, w, mk(OR, 1, a, c->k[0]), b, c->k[2]);
    if (b == c) return b;
    return raw(ITE, w, 0, a, b, c);
  }
  bool ok;
  if (isC(a) && (!b || isC(b))) {
    u64 v = foldOp(op, w, a->w, a->c, b ? b->c : 0, imm, &ok);
    if (ok) return mkConst(v, w);
  }
  if (isComm(op) && isC(a)) { Expr *t = a; a = b; b = t; }
  else if (isComm(op) && !isC(b) && a->id > b->id) { Expr *t = a; a = b; b = t; }

  /* an ITE with constant arms against a constant: push inside */
  if (a->op == EXTRACT && a->k[0]->op == ITE && (op == ZEXT || op == SEXT || (b && op < FADD && isC(b)))) {
    int n = 16; if (constTree(a->k[0], n)) {
      struct L { static Expr *go(Expr *e, unsigned lo, unsigned w) { return isC(e) ? mkExtract(e, lo, w) : mk(ITE, w, e->k[0], go(e->k[1], lo, w), go(e->k[2], lo, w)); } };
      a = L::go(a->k[0], (unsigned)a->c, a->w);
      if (isC(a)) return mk(op, w, a, b, nullptr, imm);
    }
  }
  if (b && op < FADD && op != EQ && isC(b) && a->op == ITE) { int n = 16; if (constTree(a, n)) return pushIn(op, w, a, b, imm); }
  if (!b && (op == ZEXT || op == SEXT) && a->op == ITE) { int n = 16; if (constTree(a, n)) return pushIn(op, w, a, nullptr, imm); }

  switch (op) {
  case ZEXT:
    if (w == a->w) return a;
    if (a->op == ZEXT) return mk(ZEXT, w, a->k[0]);
    break;
  case SEXT:
    if (w == a->w) return a;
    if (a->op == SEXT) return mk(SEXT, w, a->k[0]);
    if (a->op == ZEXT) return mk(ZEXT, w, a->k[0]);
    break;
  case ADD:
    if (isC(b)) {
      if (!b->c) return a;
      if (a->op == ADD && isC(a->k[1])) return mk(ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
    }
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(ADD, w, a, mkConst(0 - b->c, w));
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    break;
  case MUL:
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mk(SHL, w, a, mkConst(__builtin_ctzll(b->c), w));
    }
    break;
  case UDIV:
    if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mk(LSHR, w, a, mkConst(__builtin_ctzll(b->c), w));
    if (isC(b) && a->op == ZEXT) {
      unsigned kw = a->k[0]->w;
      if (b->c > mask(kw)) return mkConst(0, w);
      if (b->c) return mk(ZEXT, w, mk(UDIV, kw, a->k[0], mkConst(b->c, kw)));
    }
    break;
  case UREM:
    if (isC(b) && b->c == 1) return mkConst(0, w);
    if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mk(AND, w, a, mkConst(b->c - 1, w));
    if (isC(b) && a->op == ZEXT) {
      unsigned kw = a->k[0]->w;
      if (b->c > mask(kw)) return a;
      if (b->c) return mk(ZEXT, w, mk(UREM, kw, a->k[0], mkConst(b->c, kw)));
    }
    break;
  case SDIV: case SREM:
    if (isC(b) && a->op == ZEXT && sx(b->c, w) > 0) return mk(op == SDIV ? UDIV : UREM, w, a, b);
    break;
  case AND:
    if (a == b) return a;
    if (isC(b)) {
      if (!b->c) return b;
      if (b->c == mask(w)) return a;
      if (a->op == ZEXT) {
        unsigned kw = a->k[0]->w;
        return mk(ZEXT, w, mk(AND, kw, a->k[0], mkConst(b->c, kw)));
      }
      if (a->op == AND && isC(a->k[1])) return mk(AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
      /* low mask -> zext(extract) */
      if ((b->c & (b->c + 1)) == 0) return mk(ZEXT, w, mkExtract(a, 0, __builtin_popcountll(b->c)));
    }
    if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
    break;
  case OR:
    if (a == b) return a;
    if (isC(b)) {
      if (!b->c) return a;
      if (b->c == mask(w)) return b;
    }
    if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
      return mk(ZEXT, w, mk(OR, a->k[0]->w, a->k[0], b->k[0]));
    break;
  case XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (!b->c) return a;
      if (b->c == mask(w)) return mkNot(a);
    }
    break;
  case SHL: case LSHR: case ASHR:
    if (isC(b)) {
      if (!b->c) return a;
      if (op != ASHR && b->c >= w) return mkConst(0, w);
      if (op == LSHR) return mk(ZEXT, w, mkExtract(a, (unsigned)b->c, w - (unsigned)b->c));
      if (op == ASHR && b->c < w) return mk(SEXT, w, mkExtract(a, (unsigned)b->c, w - (unsigned)b->c));
      if (op == SHL) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
    }
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (a->w == 1) return b->c ? a : mkNot(a);
      switch (a->op) {
      case ZEXT: {
        unsigned kw = a->k[0]->w;
        if (b->c > mask(kw)) return mkConst(0, 1);
        return mk(EQ, 1, a->k[0], mkConst(b->c, kw));
      }
      case SEXT: {
        unsigned kw = a->k[0]->w;
        if (((u64)sx(b->c & mask(kw), kw) & mask(a->w)) != b->c) return mkConst(0, 1);
        return mk(EQ, 1, a->k[0], mkConst(b->c, kw));
      }
      case ADD: if (isC(a->k[1])) return mk(EQ, 1, a->k[0], mkConst(b->c - a->k[1]->c, a->w)); break;
      case XOR: if (isC(a->k[1])) return mk(EQ, 1, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w)); break;
      case NOT: return mk(EQ, 1, a->k[0], mkConst(~b->c, a->w));
      case ITE:
        if (isC(a->k[1])) {
          if (a->k[1]->c == b->c) return isC(a->k[2]) ? a->k[0] : mk(OR, 1, a->k[0], mk(EQ, 1, a->k[2], b));
          return mk(AND, 1, mkNot(a->k[0]), mk(EQ, 1, a->k[2], b));
        }
        if (isC(a->k[2])) {
          if (a->k[2]->c == b->c) return mk(OR, 1, mkNot(a->k[0]), mk(EQ, 1, a->k[1], b));
          return mk(AND, 1, a->k[0], mk(EQ, 1, a->k[1], b));
        }
        break;
      case CONCAT:
        if (isC(a->k[1])) {
          if ((b->c & mask(a->k[1]->w)) != a->k[1]->c) return mkConst(0, 1);
          return mk(EQ, 1, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w));
        }
        break;
      default: break;
      }
    } else {
      if (a->w == 1) return mkNot(mk(XOR, 1, a, b));
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(EQ, 1, a->k[0], b->k[0]);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mk(EQ, 1, a->k[0], b->k[0]);
    }
    break;
  case ULT: case ULE: case SLT: case SLE: {
    if (a == b) return mkConst(op == ULE || op == SLE, 1);
    bool sg = op == SLT || op == SLE;
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
      return mk((op == ULT || op == SLT) ? ULT : ULE, 1, a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w && sg)
      return mk(op, 1, a->k[0], b->k[0]);
    if (a->op == ZEXT && isC(b)) {
      unsigned kw = a->k[0]->w;
      bool strict = op == ULT || op == SLT;
      if (sg && sx(b->c, b->w) < 0) return mkConst(0, 1);
      if (b->c > mask(kw)) return mkConst(1, 1);
      return mk(strict ? ULT : ULE, 1, a->k[0], mkConst(b->c, kw));
    }
    if (b->op == ZEXT && isC(a)) {
      unsigned kw = b->k[0]->w;
      bool strict = op == ULT || op == SLT;
      if (sg && sx(a->c, a->w) < 0) return mkConst(1, 1);
      if (a->c > mask(kw)) return mkConst(0, 1);
      return mk(strict ? ULT : ULE, 1, mkConst(a->c, kw), b->k[0]);
    }
    if (sg && a->op == SEXT && isC(b)) {
      unsigned kw = a->k[0]->w; i64 v = sx(b->c, b->w), lo = -(i64)(1ULL << (kw - 1)), hi = (i64)((1ULL << (kw - 1)) - 1);
      if (v > hi) return mkConst(1, 1);
      if (v < lo) return mkConst(0, 1);
      return mk(op, 1, a->k[0], mkConst((u64)v, kw));
    }
    if (sg && b->op == SEXT && isC(a)) {
      unsigned kw = b->k[0]->w; i64 v = sx(a->c, a->w), lo = -(i64)(1ULL << (kw - 1)), hi = (i64)((1ULL << (kw - 1)) - 1);
      if (v > hi) return mkConst(0, 1);
      if (v < lo) return mkConst(1, 1);
      return mk(op, 1, mkConst((u64)v, kw), b->k[0]);
    }
    if (op == ULT && isC(b) && b->c == 0) return mkConst(0, 1);
    if (op == ULT && isC(b) && b->c == 1) return mk(EQ, 1, a, mkConst(0, a->w));
    if (op == ULE && isC(b) && b->c == mask(b->w)) return mkConst(1, 1);
    if (op == ULE && isC(b) && b->c == 0) return mk(EQ, 1, a, b);
    if (op == ULE && isC(a) && a->c == 0) return mkConst(1, 1);
    if (op == ULT && isC(a) && a->c == 0) return mkNot(mk(EQ, 1, b, a));
    break;
  }
  case FPCAST: if (w == a->w) return a; break;
  default: break;
  }
  return raw(op, w, imm, a, b, c);
}

static u64 ev(Expr *e, const std::vector<u64> &m) {
  if (e->op == CONST) return e->c;
  if (e->evalGen == g_gen) return e->evalVal;
  u64 r;
  if (e->op == VAR) r = e->c < m.size() ? m[e->c] & mask(e->w) : 0;
  else if (e->op == ITE) r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m);
  else if (e->op == CONCAT) r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m);
  else { bool ok; r = foldOp((Op)e->op, e->w, e->k[0]->w, ev(e->k[0], m), e->nk > 1 ? ev(e->k[1], m) : 0, e->c, &ok); }
  e->evalGen = g_gen; e->evalVal = r;
  return r;
}
u64 evalExpr(Expr *e, const std::vector<u64> &m) { if (e->op == CONST) return e->c; g_gen++; return ev(e, m); }

static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
  "eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","not","fadd","fsub","fmul","fdiv","fcmp","sitofp","uitofp","fptosi","fptoui","fpcast"};
std::string showExpr(Expr *e, int depth) {
  char buf[64];
  if (e->op == CONST) { snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == VAR) { snprintf(buf, sizeof buf, "v%llu:%d", (unsigned long long)e->c, e->w); return buf; }
  if (!depth) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == EXTRACT) { snprintf(buf, sizeof buf, "[%llu+%d]", (unsigned long long)e->c, e->w); s += buf; }
  for (int i = 0; i < e->nk; i++) s += " " + showExpr(e->k[i], depth - 1);
  return s + ")";
}
