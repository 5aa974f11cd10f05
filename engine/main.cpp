/* vse: path-wise symbolic execution of LLVM IR, branch feasibility and every
   assertion decided by Z3.  See DESIGN.md, section "Engine". */
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Transforms/Utils/LowerAtomic.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <deque>
#include <map>
#include <set>
#include "solver.h"
using namespace llvm;

/* ------------------------------------------------------------------ shared */
struct Shared {
  Stats st;
  volatile int tokens, active, stop, timedOut;
  u64 deadlineUs;
  u64 tag;
  int nbugs, ntests;
  u8 fnHit[4096];
  u8 blkHit[1 << 17];
  u8 reach[256];
};
static Shared *SH;
static int g_out = -1;
static u64 g_maxInst = 400000000ULL;
static u64 g_maxPathInst = 200000000ULL;
static int g_maxTests = 16, g_maxBugs = 8;
static int g_maxFrames = 4000;
static u8 g_fill = 0xBE;
static std::map<std::string, long> g_params;
static bool g_reuse;
static long g_maxAlloca = 8 << 20;      /* a task with "stack=N" has N kilobytes of stack */
static std::vector<std::string> g_names;           /* symbol names */
static std::map<std::string, int> g_nameId;
static std::vector<std::string> g_reachNames;
static bool g_trace = false;

static u64 nowUs() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec * 1000000ULL + t.tv_usec; }

/* ------------------------------------------------------------------ memory */
enum Region { RG_GLOBAL = 1, RG_STACK = 2, RG_HEAP = 3, RG_FUNC = 4 };
struct Obj {
  int rc; u64 base; u32 size; u8 region; bool ro, freed; u32 npages;
  std::vector<u8> d; std::vector<Expr*> s;   /* s empty: all concrete */
};
static inline Obj *ref(Obj *o) { if (o) o->rc++; return o; }
static inline void unref(Obj *o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc; Obj *o[64]; };
static void unrefC(Chunk *c) { if (c && --c->rc == 0) { for (int i = 0; i < 64; i++) unref(c->o[i]); delete c; } }
static Obj *g_freed;     /* marks released heap pages */

struct Table {
  std::vector<Chunk*> ch; u32 next = 1;
  Table() {}
  Table(const Table &t) : ch(t.ch), next(t.next) { for (Chunk *c : ch) if (c) c->rc++; }
  Table &operator=(const Table &) = delete;
  ~Table() { for (Chunk *c : ch) unrefC(c); }
  Obj *get(u32 p) const { u32 i = p >> 6; if (i >= ch.size() || !ch[i]) return nullptr; return ch[i]->o[p & 63]; }
  void set(u32 p, Obj *o) {
    u32 i = p >> 6;
    if (i >= ch.size()) ch.resize(i + 1, nullptr);
    Chunk *c = ch[i];
    if (!c) { c = ch[i] = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); }
    else if (c->rc > 1) {
      Chunk *n = new Chunk; n->rc = 1;
      for (int k = 0; k < 64; k++) n->o[k] = ref(c->o[k]);
      c->rc--; c = ch[i] = n;
    }
    ref(o); unref(c->o[p & 63]); c->o[p & 63] = o;
  }
};
struct Mem {
  Table t[4];                       /* indexed by region */
  static u32 pageOf(u64 a) { return (u32)((a >> 12) & 0xFFFFFFF); }
  static int regionOf(u64 a) { return (int)(a >> 40); }
  Obj *find(u64 a) const {
    int r = regionOf(a);
    if (r < 1 || r > 3) return nullptr;
    return t[r].get(pageOf(a));
  }
  std::vector<std::pair<u32, u32>> again;   /* a task with "lifo=1": released heap blocks (size class, page), given out again last-in-first-out as real allocators do */
  Obj *alloc(int r, u32 size, bool fill) {
    u32 np = (size + 4095 + 4096) >> 12; if (size < 2048) np = 1;
    Obj *o = new Obj; o->rc = 1; o->region = r; o->size = size; o->ro = false; o->freed = false; o->npages = np;
    u32 p = 0;
    if (g_reuse && r == RG_HEAP) for (size_t k = again.size(); k-- > 0;) if (again[k].first == (size + 15) / 16) { p = again[k].second; again.erase(again.begin() + k); break; }
    if (!p) { p = t[r].next; t[r].next += np; }
    o->base = ((u64)r << 40) | ((u64)p << 12);
    o->d.assign(size, fill ? g_fill : 0);
    for (u32 i = 0; i < np; i++) t[r].set(p + i, o);
    unref(o);
    return o;
  }
  Obj *writable(Obj *o) {
    if (o->rc == (int)o->npages) {
      /* the only holders may still be shared chunks */
      u32 p = pageOf(o->base); bool shared = false;
      for (u32 i = 0; i < o->npages; i++) if (t[o->region].ch[(p + i) >> 6]->rc > 1) { shared = true; break; }
      if (!shared) return o;
    }
    Obj *n = new Obj(*o); n->rc = 1;
    u32 p = pageOf(o->base);
    for (u32 i = 0; i < n->npages; i++) t[o->region].set(p + i, n);
    unref(n);
    return n;
  }
  void release(Obj *o) {
    u32 p = pageOf(o->base), np = o->npages; int r = o->region;
    if (g_reuse && r == RG_HEAP && o->size < 2032) again.push_back({(o->size + 15) / 16, p});
    for (u32 i = 0; i < np; i++) t[r].set(p + i, r == RG_HEAP ? g_freed : nullptr);
  }
};

/* ------------------------------------------------------------------ code */
struct Val { u64 c; Expr *e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(Expr *e) { if (isC(e)) return Val{e->c, nullptr}; return Val{0, e}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Opn { bool reg; u32 r; u64 c; };
struct Edge { int target; int blk; std::vector<std::pair<int, Opn>> phis; };
enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_CAST, I_FNEG, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_UNREACH, I_MOV, I_BAD };
struct FuncInfo;
struct Inst {
  IOp op; u8 sub; u8 w, kw; bool neg, swap; int dst; u64 imm;
  Opn a, b, c;
  std::vector<Opn> args; std::vector<u8> argw; std::vector<u32> byval;
  std::vector<std::pair<Opn, i64>> idx;
  std::vector<Edge> edges; std::vector<u64> cases;
  FuncInfo *callee; const Instruction *src;
};
struct State;
enum BR { B_OK, B_RETRY, B_DEAD, B_BODY, B_JUMPED };   /* result of a builtin */
typedef BR (*Builtin)(State &s, Inst &in, std::vector<Val> &a, Val &ret);
struct FuncInfo {
  Function *f; std::string name; int id; bool translated = false; std::vector<Inst> code; int nregs = 0; int blk0 = 0; Builtin bi = nullptr; u64 addr;
  bool body;
};
static std::vector<FuncInfo*> g_funcs;
static std::map<const Function*, FuncInfo*> g_fmap;
static std::map<const GlobalVariable*, u64> g_gaddr;
static const DataLayout *DL;
static Module *M;
static int g_nblk = 0;
static std::vector<std::pair<int,int>> g_blkFn;

struct Frame { FuncInfo *fn; int pc; std::vector<Val> regs; std::vector<u64> allocas; u64 va; int callDst; };
struct Jmp { size_t depth; int pc; int dst; u64 uid; };
struct Sym { int name; u8 w; };
struct State {
  std::vector<Frame> st; Mem mem;
  std::vector<Expr*> cs; std::vector<u64> model; VarSet fixed;
  std::vector<std::pair<Expr*, u64>> known;
  std::vector<Sym> syms; std::vector<Val> notes; std::vector<Jmp> jmps;
  u64 insts = 0; i64 live = 0; u64 liveBytes = 0; u32 depth = 0; u64 lastFn = 0;
  bool expectFatal = false;
};
static std::deque<State*> g_work;

/* ------------------------------------------------------------------ results */
static std::string jq(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void emitLine(const std::string &s) {
  std::string l = s + "\n"; size_t p = 0;
  while (p < l.size()) { ssize_t n = write(g_out, l.data() + p, l.size() - p); if (n <= 0) break; p += n; }
}
static std::string locOf(const Instruction *i) {
  if (!i) return "?";
  std::string fn = i->getFunction()->getName().str();
  if (const DILocation *l = i->getDebugLoc().get())
    return fn + " " + l->getFilename().str() + ":" + std::to_string(l->getLine());
  return fn;
}
static std::string symsJson(State &s, const std::vector<u64> &m) {
  std::string o = "[";
  for (size_t i = 0; i < s.syms.size(); i++) {
    char b[64]; snprintf(b, sizeof b, ",%d,\"%llu\"]", s.syms[i].w, (unsigned long long)((i < m.size() ? m[i] : 0) & mask(s.syms[i].w)));
    o += (i ? ",[" : "[") + jq(g_names[s.syms[i].name]) + b;
  }
  return o + "]";
}
static void engineErr(State *s, const std::string &msg) {
  __sync_fetch_and_add(&SH->st.engineErrs, 1);
  std::string loc = s && !s->st.empty() ? locOf(s->st.back().fn->code[s->st.back().pc].src) : "?";
  emitLine("{\"t\":\"err\",\"msg\":" + jq(msg) + ",\"loc\":" + jq(loc) + "}");
}
static std::set<std::string> g_seenBugs;
static void bug(State &s, const char *kind, const std::string &msg, const std::vector<u64> &m) {
  std::string loc = locOf(s.st.back().fn->code[s.st.back().pc].src);
  std::string key = std::string(kind) + msg + loc;
  __sync_fetch_and_add(&SH->st.bugs, 1);
  if (!g_seenBugs.insert(key).second) return;
  int n = __sync_add_and_fetch(&SH->nbugs, 1);
  std::string stk = "[";
  for (size_t i = s.st.size(); i-- > 0;) {
    if (i + 1 != s.st.size()) stk += ",";
    stk += jq(locOf(s.st[i].fn->code[i + 1 == s.st.size() ? s.st[i].pc : s.st[i].pc - 1].src));
    if (s.st.size() - i > 12) break;
  }
  stk += "]";
  emitLine(std::string("{\"t\":\"bug\",\"kind\":") + jq(kind) + ",\"msg\":" + jq(msg) + ",\"loc\":" + jq(loc) + ",\"stack\":" + stk + ",\"syms\":" + symsJson(s, m) + "}");
  if (n >= g_maxBugs) SH->stop = 1;
}
static void pathDone(State &s) {
  u64 n = __sync_add_and_fetch(&SH->st.paths, 1);
  if (s.depth > SH->st.maxDepth) SH->st.maxDepth = s.depth;
  /* sample: spread over the run */
  bool take = n <= 4 || (n & (n - 1)) == 0 || (n % 997) == 0;
  if (take && SH->ntests < g_maxTests) {
    __sync_fetch_and_add(&SH->ntests, 1);
    std::string o = "[";
    for (size_t i = 0; i < s.notes.size(); i++) {
      u64 v = s.notes[i].e ? evalExpr(s.notes[i].e, s.model) : s.notes[i].c;
      o += (i ? ",\"" : "\"") + std::to_string(v) + "\"";
    }
    emitLine("{\"t\":\"test\",\"syms\":" + symsJson(s, s.model) + ",\"notes\":" + o + "]}");
  }
}

/* ------------------------------------------------------------------ path condition */
static bool subset(const VarSet &a, const VarSet &b) { for (int i = 0; i < MAXVARS/64; i++) if (a.b[i] & ~b.b[i]) return false; return true; }
static void addC(State &s, Expr *c) {
  if (isC(c)) return;
  if (c->op == AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  for (Expr *e : s.cs) if (e == c) return;
  s.cs.push_back(c);
  if (c->op == EQ && isC(c->k[1])) {
    Expr *x = c->k[0];
    s.known.push_back({x, c->k[1]->c});
    while (x->op == ZEXT || x->op == SEXT) x = x->k[0];
    if (x->op == VAR) s.fixed.add(*x->vs);
  } else if (c->w == 1 && c->op == VAR) s.fixed.add(*c->vs);
  else if (c->op == NOT && c->k[0]->op == VAR) s.fixed.add(*c->vs);
}
/* value of e if the path condition is known to fix it */
static bool knownVal(State &s, Expr *e, u64 *v) {
  for (auto &p : s.known) if (p.first == e) { *v = p.second; return true; }
  if (subset(*e->vs, s.fixed)) { *v = evalExpr(e, s.model); return true; }
  return false;
}
static inline void simp(State &s, Val &v) { u64 x; if (v.e && knownVal(s, v.e, &x)) v = VC(x); }
static State *forkState(State &s, Expr *c, const std::vector<u64> &m) {
  State *n = new State(s);
  n->model = m; n->depth++;
  addC(*n, c);
  __sync_fetch_and_add(&SH->st.forks, 1);
  return n;
}
/* 1: c holds on the current path from here on; 0: not c. The other side, if feasible, is returned in *other. */
static int decide(State &s, Expr *c, State **other) {
  *other = nullptr;
  u64 v;
  if (isC(c)) return (int)c->c;
  if (knownVal(s, c, &v)) return (int)v;
  if (knownVal(s, mkNot(c), &v)) return !v;
  int mv = (int)evalExpr(c, s.model);
  Expr *oc = mv ? mkNot(c) : c, *mc = mv ? c : mkNot(c);
  std::vector<u64> nm;
  Res r = solve(s.cs, oc, s.model, &nm);
  if (r == UNKNOWN) { engineErr(&s, "solver gave no answer"); addC(s, mc); return mv; }
  if (r == SAT) { *other = forkState(s, oc, nm); s.depth++; addC(s, mc); }
  else { s.known.push_back({c, (u64)mv}); }
  return mv;
}
/* give v one concrete value on this path; the rest is explored by a copy which repeats this instruction */
static void concretize(State &s, Val &v, unsigned w) {
  simp(s, v);
  if (!v.e) return;
  u64 x = evalExpr(v.e, s.model);
  State *o;
  Expr *c = mk(EQ, 1, v.e, mkConst(x, w));
  int r = decide(s, c, &o);
  (void)r;                          /* the model makes it true */
  if (o) g_work.push_back(o);
  v = VC(x);
}

/* ------------------------------------------------------------------ constants, globals */
static u64 fnAddr(const Function *f) { return g_fmap.at(f)->addr; }
static u64 evalConst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { fprintf(stderr, "ENGINE: wide integer constant\n"); abort(); }
    return ci->getZExtValue();
  }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (isa<UndefValue>(c)) { u64 f = 0; for (int i = 0; i < 8; i++) f = f << 8 | g_fill; return f & mask(c->getType()->isPointerTy() ? 64 : c->getType()->isSingleValueType() ? (unsigned)DL->getTypeSizeInBits(c->getType()) : 64); }
  if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return g_gaddr.at(g);
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (auto *fp = dyn_cast<ConstantFP>(c)) { if (!fp->getType()->isDoubleTy() && !fp->getType()->isFloatTy()) return 0; return fp->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      u64 base = evalConst(ce->getOperand(0));
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) abort();
      return base + off.getSExtValue();
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      { u64 v = evalConst(ce->getOperand(0)); return ce->getType()->isPointerTy() ? v : v & mask((unsigned)DL->getTypeSizeInBits(ce->getType())); }
    case Instruction::Trunc: return evalConst(ce->getOperand(0)) & mask((unsigned)DL->getTypeSizeInBits(ce->getType()));
    case Instruction::ZExt: return evalConst(ce->getOperand(0));
    case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
    case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
    case Instruction::ICmp: {
      u64 a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; default: break; }
    }
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os);
  fprintf(stderr, "ENGINE: unsupported constant %s\n", os.str().c_str()); abort();
}
static void writeInit(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = DL->getTypeAllocSize(ds->getElementType());
    for (unsigned i = 0; i < ds->getNumElements(); i++) {
      u64 v = ds->getElementType()->isIntegerTy() ? ds->getElementAsInteger(i) : evalConst(ds->getElementAsConstant(i));
      memcpy(&o->d[off + i * es], &v, es);
    }
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cst = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cst->getType());
    for (unsigned i = 0; i < cst->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), cst->getOperand(i));
    return;
  }
  u64 v = evalConst(c); u64 n = DL->getTypeStoreSize(t);
  memcpy(&o->d[off], &v, n > 8 ? 8 : n);
}

/* ------------------------------------------------------------------ translation */
static unsigned widthOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static void translate(FuncInfo *fi) {
  fi->translated = true;
  Function *f = fi->f;
  { std::vector<Instruction*> at;        /* one thread: atomic operations are plain ones */
    for (auto &bb : *f) for (auto &i : bb) if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i)) at.push_back(&i);
    for (Instruction *i : at) { if (auto *r = dyn_cast<AtomicRMWInst>(i)) lowerAtomicRMWInst(r); else if (auto *c = dyn_cast<AtomicCmpXchgInst>(i)) lowerAtomicCmpXchgInst(c); else i->eraseFromParent(); } }
  std::map<const Value*, int> reg; int n = 0;
  for (auto &a : f->args()) reg[&a] = n++;
  /* small structs by value live in one register per element */
  auto aggN = [&](Type *t) -> unsigned {
    auto *st = dyn_cast<StructType>(t); if (!st || st->getNumElements() == 0 || st->getNumElements() > 8) return 0;
    for (Type *e : st->elements()) if (!widthOf(e) || widthOf(e) > 64) return 0;
    return st->getNumElements();
  };
  for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) { reg[&i] = n; unsigned k = aggN(i.getType()); n += k ? k : 1; }
  std::map<const BasicBlock*, int> start; std::map<const BasicBlock*, int> blk;
  auto opn = [&](const Value *v) -> Opn {
    if (auto *c = dyn_cast<Constant>(v)) {
      if (!widthOf(v->getType()) && !v->getType()->isPointerTy()) return Opn{false, 0, 0};
      return Opn{false, 0, evalConst(c)};
    }
    auto it = reg.find(v);
    if (it == reg.end()) return Opn{false, 0, 0};     /* metadata, labels */
    return Opn{true, (u32)it->second, 0};
  };
  auto opnAgg = [&](const Value *v, unsigned j) -> Opn {
    if (auto *c = dyn_cast<Constant>(v)) { Constant *e = c->getAggregateElement(j); return Opn{false, 0, e && !isa<UndefValue>(e) ? evalConst(e) : 0}; }
    auto it = reg.find(v);
    return Opn{true, (u32)(it->second + j), 0};
  };
  fi->blk0 = g_nblk;
  for (auto &bb : *f) { blk[&bb] = g_nblk++; g_blkFn.push_back({fi->id, 0}); }
  for (auto &bb : *f) {
    start[&bb] = (int)fi->code.size();
    for (auto &i : bb) {
      if (isa<PHINode>(i)) continue;
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Inst in{}; in.src = &i; in.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; in.w = widthOf(i.getType()); in.op = I_BAD; in.callee = nullptr;
      bool badType = !i.getType()->isVoidTy() && !widthOf(i.getType());
      if (unsigned k = aggN(i.getType())) {
        auto *st = cast<StructType>(i.getType()); const StructLayout *sl = DL->getStructLayout(st);
        auto mov = [&](Opn from, unsigned j) { Inst m{}; m.src = &i; m.op = I_MOV; m.dst = reg[&i] + j; m.w = widthOf(st->getElementType(j)); m.callee = nullptr; m.a = from; fi->code.push_back(m); };
        if (auto *ld = dyn_cast<LoadInst>(&i)) {
          for (unsigned j = 0; j < k; j++) {
            Inst g{}; g.src = &i; g.op = I_GEP; g.dst = n++; g.w = 64; g.callee = nullptr; g.a = opn(ld->getPointerOperand()); g.imm = sl->getElementOffset(j); fi->code.push_back(g);
            Inst l{}; l.src = &i; l.op = I_LOAD; l.dst = reg[&i] + j; l.w = widthOf(st->getElementType(j)); l.callee = nullptr; l.a = Opn{true, (u32)g.dst, 0}; l.imm = DL->getTypeStoreSize(st->getElementType(j)); fi->code.push_back(l);
          }
          continue;
        }
        if (auto *iv = dyn_cast<InsertValueInst>(&i)) if (iv->getNumIndices() == 1) {
          for (unsigned j = 0; j < k; j++) mov(j == iv->getIndices()[0] ? opn(iv->getInsertedValueOperand()) : opnAgg(iv->getAggregateOperand(), j), j);
          continue;
        }
        if (auto *se = dyn_cast<SelectInst>(&i)) {
          for (unsigned j = 0; j < k; j++) { Inst m{}; m.src = &i; m.op = I_SELECT; m.dst = reg[&i] + j; m.w = widthOf(st->getElementType(j)); m.callee = nullptr; m.a = opn(se->getCondition()); m.b = opnAgg(se->getTrueValue(), j); m.c = opnAgg(se->getFalseValue(), j); fi->code.push_back(m); }
          continue;
        }
        if (isa<FreezeInst>(&i)) { for (unsigned j = 0; j < k; j++) mov(opnAgg(i.getOperand(0), j), j); continue; }
      }
      if (auto *sr = dyn_cast<StoreInst>(&i)) if (unsigned k = aggN(sr->getValueOperand()->getType())) {
        auto *st = cast<StructType>(sr->getValueOperand()->getType()); const StructLayout *sl = DL->getStructLayout(st);
        for (unsigned j = 0; j < k; j++) {
          Inst g{}; g.src = &i; g.op = I_GEP; g.dst = n++; g.w = 64; g.callee = nullptr; g.a = opn(sr->getPointerOperand()); g.imm = sl->getElementOffset(j); fi->code.push_back(g);
          Inst t{}; t.src = &i; t.op = I_STORE; t.dst = -1; t.kw = widthOf(st->getElementType(j)); t.callee = nullptr; t.a = Opn{true, (u32)g.dst, 0}; t.b = opnAgg(sr->getValueOperand(), j); t.imm = DL->getTypeStoreSize(st->getElementType(j)); fi->code.push_back(t);
        }
        continue;
      }
      if (auto *ev = dyn_cast<ExtractValueInst>(&i)) if (ev->getNumIndices() == 1 && aggN(ev->getAggregateOperand()->getType()) && in.w) {
        in.op = I_MOV; in.a = opnAgg(ev->getAggregateOperand(), ev->getIndices()[0]); fi->code.push_back(in); continue;
      }
      if (badType && !isa<CallInst>(i)) { fi->code.push_back(in); continue; }
      auto edge = [&](BasicBlock *to) {
        Edge e; e.blk = blk[to]; e.target = -1;
        for (auto &p : to->phis()) { unsigned k = aggN(p.getType()); if (!k) e.phis.push_back({reg[&p], opn(p.getIncomingValueForBlock(&bb))}); for (unsigned j = 0; j < k; j++) e.phis.push_back({reg[&p] + (int)j, opnAgg(p.getIncomingValueForBlock(&bb), j)}); }
        return e;
      };
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        in.op = I_BIN; in.a = opn(bo->getOperand(0)); in.b = opn(bo->getOperand(1)); in.kw = in.w;
        switch (bo->getOpcode()) {
        case Instruction::Add: in.sub = ADD; break; case Instruction::Sub: in.sub = SUB; break;
        case Instruction::Mul: in.sub = MUL; break; case Instruction::UDiv: in.sub = UDIV; break;
        case Instruction::SDiv: in.sub = SDIV; break; case Instruction::URem: in.sub = UREM; break;
        case Instruction::SRem: in.sub = SREM; break; case Instruction::And: in.sub = AND; break;
        case Instruction::Or: in.sub = OR; break; case Instruction::Xor: in.sub = XOR; break;
        case Instruction::Shl: in.sub = SHL; break; case Instruction::LShr: in.sub = LSHR; break;
        case Instruction::AShr: in.sub = ASHR; break;
        case Instruction::FAdd: in.sub = FADD; break; case Instruction::FSub: in.sub = FSUB; break;
        case Instruction::FMul: in.sub = FMUL; break; case Instruction::FDiv: in.sub = FDIV; break;
        default: in.op = I_BAD;
        }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
        in.op = I_ICMP; in.a = opn(ic->getOperand(0)); in.b = opn(ic->getOperand(1)); in.kw = widthOf(ic->getOperand(0)->getType());
        if (!in.kw) in.op = I_BAD;
        switch (ic->getPredicate()) {
        case CmpInst::ICMP_EQ: in.sub = EQ; break; case CmpInst::ICMP_NE: in.sub = EQ; in.neg = true; break;
        case CmpInst::ICMP_ULT: in.sub = ULT; break; case CmpInst::ICMP_ULE: in.sub = ULE; break;
        case CmpInst::ICMP_UGT: in.sub = ULT; in.swap = true; break; case CmpInst::ICMP_UGE: in.sub = ULE; in.swap = true; break;
        case CmpInst::ICMP_SLT: in.sub = SLT; break; case CmpInst::ICMP_SLE: in.sub = SLE; break;
        case CmpInst::ICMP_SGT: in.sub = SLT; in.swap = true; break; case CmpInst::ICMP_SGE: in.sub = SLE; in.swap = true; break;
        default: in.op = I_BAD;
        }
      } else if (auto *fc = dyn_cast<FCmpInst>(&i)) {
        in.op = I_FCMP; in.a = opn(fc->getOperand(0)); in.b = opn(fc->getOperand(1)); in.kw = widthOf(fc->getOperand(0)->getType());
        if (!in.kw) in.op = I_BAD;
        in.imm = fc->getPredicate();      /* LLVM: bit0 eq, bit1 gt, bit2 lt, bit3 unordered */
      } else if (auto *ca = dyn_cast<CastInst>(&i)) {
        in.op = I_CAST; in.a = opn(ca->getOperand(0)); in.kw = widthOf(ca->getOperand(0)->getType());
        if (!in.kw) in.op = I_BAD;
        switch (ca->getOpcode()) {
        case Instruction::Trunc: in.sub = EXTRACT; break;
        case Instruction::ZExt: in.sub = ZEXT; break;
        case Instruction::SExt: in.sub = SEXT; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: in.sub = in.w < in.kw ? EXTRACT : ZEXT; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: in.sub = ZEXT; break;
        case Instruction::SIToFP: in.sub = SITOFP; break; case Instruction::UIToFP: in.sub = UITOFP; break;
        case Instruction::FPToSI: in.sub = FPTOSI; break; case Instruction::FPToUI: in.sub = FPTOUI; break;
        case Instruction::FPExt: case Instruction::FPTrunc: in.sub = FPCAST; break;
        default: in.op = I_BAD;
        }
      } else if (i.getOpcode() == Instruction::FNeg) {
        in.op = I_FNEG; in.a = opn(i.getOperand(0));
      } else if (isa<FreezeInst>(&i)) {
        in.op = I_MOV; in.a = opn(i.getOperand(0));
      } else if (auto *ld = dyn_cast<LoadInst>(&i)) {
        in.op = I_LOAD; in.a = opn(ld->getPointerOperand()); in.imm = DL->getTypeStoreSize(ld->getType());
      } else if (auto *sr = dyn_cast<StoreInst>(&i)) {
        in.op = I_STORE; in.a = opn(sr->getPointerOperand()); in.b = opn(sr->getValueOperand());
        in.imm = DL->getTypeStoreSize(sr->getValueOperand()->getType()); in.kw = widthOf(sr->getValueOperand()->getType());
        if (!in.kw) in.op = I_BAD;
      } else if (auto *gp = dyn_cast<GetElementPtrInst>(&i)) {
        in.op = I_GEP; in.a = opn(gp->getPointerOperand());
        i64 off = 0;
        for (gep_type_iterator it = gep_type_begin(gp), e = gep_type_end(gp); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *sty = it.getStructTypeOrNull()) off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            i64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue();
            else { in.idx.push_back({opn(ix), sc}); in.argw.push_back(widthOf(ix->getType())); }
          }
        }
        in.imm = (u64)off;
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
        in.op = I_ALLOCA; in.a = opn(al->getArraySize()); in.kw = widthOf(al->getArraySize()->getType()); in.imm = DL->getTypeAllocSize(al->getAllocatedType());
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { in.op = I_CBR; in.a = opn(br->getCondition()); in.edges = {edge(br->getSuccessor(0)), edge(br->getSuccessor(1))}; }
        else { in.op = I_BR; in.edges = {edge(br->getSuccessor(0))}; }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        in.op = I_SWITCH; in.a = opn(sw->getCondition()); in.kw = widthOf(sw->getCondition()->getType());
        in.edges.push_back(edge(sw->getDefaultDest()));
        for (auto &cs : sw->cases()) { in.cases.push_back(cs.getCaseValue()->getZExtValue()); in.edges.push_back(edge(cs.getCaseSuccessor())); }
      } else if (auto *rt = dyn_cast<ReturnInst>(&i)) {
        in.op = I_RET;
        if (unsigned k = rt->getReturnValue() ? aggN(rt->getReturnValue()->getType()) : 0) { for (unsigned j = 0; j < k; j++) in.args.push_back(opnAgg(rt->getReturnValue(), j)); }
        else if (rt->getReturnValue()) { in.a = opn(rt->getReturnValue()); in.neg = true; }
      } else if (auto *cl = dyn_cast<CallInst>(&i)) {
        if (cl->isInlineAsm()) { fi->code.push_back(in); continue; }
        in.op = I_CALL;
        if (unsigned k = aggN(i.getType())) for (unsigned j = 0; j < k; j++) in.cases.push_back(widthOf(cast<StructType>(i.getType())->getElementType(j)));
        else if (badType && in.dst >= 0) { in.op = I_BAD; fi->code.push_back(in); continue; }
        if (Function *cf = dyn_cast<Function>(cl->getCalledOperand()->stripPointerCasts())) {
          if (cf->getName().startswith("llvm.lifetime") || cf->getName().startswith("llvm.assume") || cf->getName().startswith("llvm.experimental")) continue;
          in.callee = g_fmap.at(cf);
        } else in.a = opn(cl->getCalledOperand());
        for (unsigned k = 0; k < cl->arg_size(); k++) {
          in.args.push_back(opn(cl->getArgOperand(k))); in.argw.push_back(widthOf(cl->getArgOperand(k)->getType()));
          in.byval.push_back(cl->isByValArgument(k) ? DL->getTypeAllocSize(cl->getParamByValType(k)) : 0);
        }
      } else if (auto *se = dyn_cast<SelectInst>(&i)) {
        in.op = I_SELECT; in.a = opn(se->getCondition()); in.b = opn(se->getTrueValue()); in.c = opn(se->getFalseValue());
      } else if (isa<UnreachableInst>(&i)) in.op = I_UNREACH;
      fi->code.push_back(in);
    }
  }
  fi->nregs = n;
  std::map<int, int> bstart; for (auto &p : start) bstart[blk[p.first]] = p.second;
  for (auto &in : fi->code) for (auto &e : in.edges) e.target = bstart[e.blk];
}

/* ------------------------------------------------------------------ memory access */
static Val loadObj(Obj *o, u64 off, unsigned n) {
  if (o->s.empty()) {
    u64 v = 0; memcpy(&v, &o->d[off], n); return VC(v);
  }
  bool any = false;
  for (unsigned i = 0; i < n; i++) if (o->s[off + i]) any = true;
  if (!any) { u64 v = 0; memcpy(&v, &o->d[off], n); return VC(v); }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8);
    e = e ? mkConcat(b, e) : b;
  }
  return VE(e);
}
static void storeObj(Obj *o, u64 off, unsigned n, const Val &v) {
  if (!v.e) {
    memcpy(&o->d[off], &v.c, n);
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Expr *e = v.e;
  if (e->w < n * 8) e = mk(ZEXT, n * 8, e);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->d[off + i] = (u8)b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b;
  }
}
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static void memErr(State &s, u64 a, u64 n, bool wr, Obj *o) {
  const char *what = wr ? "write" : "read";
  if (o == g_freed) bug(s, "use-after-free", std::string(what) + " of released memory", s.model);
  else if (a < 4096) bug(s, "null-deref", std::string(what) + " through a null pointer", s.model);
  else if (o) bug(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string((i64)(a - o->base)) + " of an object of " + std::to_string(o->size), s.model);
  else bug(s, "bad-pointer", std::string(what) + " through an invalid pointer", s.model);
}
/* concrete address; returns the object or null (bug reported) */
static Obj *objAt(State &s, u64 a, u64 n, bool wr) {
  Obj *o = s.mem.find(a);
  if (!o || o == g_freed || a < o->base || a - o->base + n > o->size) { memErr(s, a, n, wr, o); return nullptr; }
  if (wr && o->ro) { bug(s, "write-to-constant", "write to constant data", s.model); return nullptr; }
  return o;
}
static bool minMax(State &s, Expr *e, u64 lim, u64 *lo, u64 *hi) {
  /* feasible range of e, known to be <= lim */
  u64 v = evalExpr(e, s.model); u64 l = 0, h = v; std::vector<u64> nm;
  while (l < h) { u64 mid = l + (h - l) / 2; Res r = solve(s.cs, mk(ULE, 1, e, mkConst(mid, e->w)), s.model, &nm); if (r == UNKNOWN) return false; if (r == SAT) h = mid; else l = mid + 1; }
  *lo = l; l = v; h = lim;
  while (l < h) { u64 mid = h - (h - l) / 2; Res r = solve(s.cs, mk(ULE, 1, mkConst(mid, e->w), e), s.model, &nm); if (r == UNKNOWN) return false; if (r == SAT) l = mid; else h = mid - 1; }
  *hi = l;
  return true;
}
static bool loadVal(State &s, Val a, unsigned n, Val &out) {
  simp(s, a);
  if (a.e) {
    u64 v = evalExpr(a.e, s.model);
    Obj *o = s.mem.find(v);
    if (!o || o == g_freed || v < o->base || v - o->base + n > o->size) { memErr(s, v, n, false, o); return false; }
    if (n < 8 || o->ro) {
      Expr *off = mk(SUB, 64, a.e, mkConst(o->base, 64));
      State *oth;
      decide(s, mk(ULE, 1, off, mkConst(o->size - n, 64)), &oth);     /* true under the model */
      if (oth) g_work.push_back(oth);
      u64 lo, hi;
      u64 kv;
      if (knownVal(s, off, &kv)) { out = loadObj(o, kv, n); return true; }
      if (minMax(s, off, o->size - n, &lo, &hi) && (hi - lo) / n <= 2048) {
        u64 stride = 1;
        if (n > 1 && solve(s.cs, mkNot(mk(EQ, 1, mk(UREM, 64, off, mkConst(n, 64)), mkConst(lo % n, 64))), s.model, nullptr) == UNSAT) stride = n;
        /* group equal contents: runs of consecutive offsets */
        std::vector<std::pair<Expr*, std::vector<std::pair<u64,u64>>>> groups; std::unordered_map<Expr*, int> gi;
        for (u64 x = lo; x <= hi; x += stride) {
          Expr *e = toE(loadObj(o, x, n), n * 8);
          auto it = gi.find(e); int g;
          if (it == gi.end()) { g = (int)groups.size(); gi[e] = g; groups.push_back({e, {}}); } else g = it->second;
          auto &r = groups[g].second;
          if (!r.empty() && r.back().second + stride == x) r.back().second = x; else r.push_back({x, x});
        }
        size_t best = 0; for (size_t i = 1; i < groups.size(); i++) if (groups[i].second.size() > groups[best].second.size()) best = i;
        Expr *res = groups[best].first;
        for (size_t i = 0; i < groups.size(); i++) {
          if (i == best) continue;
          Expr *c = mkConst(0, 1);
          for (auto &r : groups[i].second) {
            Expr *t = r.first == r.second ? mk(EQ, 1, off, mkConst(r.first, 64))
                    : mk(AND, 1, mk(ULE, 1, mkConst(r.first, 64), off), mk(ULE, 1, off, mkConst(r.second, 64)));
            c = mk(OR, 1, c, t);
          }
          res = mk(ITE, n * 8, c, groups[i].first, res);
        }
        out = VE(res);
        return true;
      }
    }
    concretize(s, a, 64);
  }
  Obj *o = objAt(s, a.c, n, false);
  if (!o) return false;
  out = loadObj(o, a.c - o->base, n);
  return true;
}
static bool storeVal(State &s, Val a, unsigned n, const Val &v) {
  if (a.e) concretize(s, a, 64);
  Obj *o = objAt(s, a.c, n, true);
  if (!o) return false;
  o = s.mem.writable(o);
  storeObj(o, a.c - o->base, n, v);
  return true;
}
static bool readCStr(State &s, u64 a, std::string &out, bool *sym) {
  *sym = false;
  for (;; a++) {
    Obj *o = objAt(s, a, 1, false);
    if (!o) return false;
    u64 off = a - o->base;
    if (!o->s.empty() && o->s[off]) { *sym = true; return false; }
    if (!o->d[off]) return true;
    out += (char)o->d[off];
  }
}
static bool isConcreteCStr(State &s, u64 a, u64 lim, u64 *len) {
  /* no errors reported: only used to pick the fast path */
  Obj *o = s.mem.find(a);
  if (!o || o == g_freed || a < o->base || a >= o->base + o->size) return false;
  for (u64 off = a - o->base, n = 0; off < o->size; off++, n++) {
    if (n == lim) { *len = n; return true; }
    if (!o->s.empty() && o->s[off]) return false;
    if (!o->d[off]) { *len = n; return true; }
  }
  return false;
}

/* ------------------------------------------------------------------ builtins */
#define BI(name) static BR name(State &s, Inst &in, std::vector<Val> &a, Val &ret)
#define CONC(i) concretize(s, a[i], in.argw[i])
static u64 heapAlloc(State &s, u64 n, bool zero) {
  if (n > (64u << 20)) return 0;
  Obj *o = s.mem.alloc(RG_HEAP, (u32)n, !zero);
  s.live++; s.liveBytes += n;
  return o->base;
}
BI(bi_malloc) { CONC(0); ret = VC(heapAlloc(s, a[0].c, false)); return B_OK; }
BI(bi_calloc) { CONC(0); CONC(1); unsigned __int128 t = (unsigned __int128)a[0].c * a[1].c; ret = VC(t > (64u << 20) ? 0 : heapAlloc(s, (u64)t, true)); return B_OK; }
static BR heapFree(State &s, u64 p) {
  if (!p) return B_OK;
  Obj *o = s.mem.find(p);
  if (o == g_freed) { bug(s, "double-free", "memory released twice", s.model); return B_DEAD; }
  if (!o || o->region != RG_HEAP || o->base != p) { bug(s, "bad-free", "release of something not allocated", s.model); return B_DEAD; }
  s.live--; s.liveBytes -= o->size;
  s.mem.release(o);
  return B_OK;
}
BI(bi_free) { CONC(0); (void)ret; return heapFree(s, a[0].c); }
BI(bi_realloc) {
  CONC(0); CONC(1);
  if (!a[0].c) { ret = VC(heapAlloc(s, a[1].c, false)); return B_OK; }
  Obj *o = s.mem.find(a[0].c);
  if (o == g_freed) { bug(s, "use-after-free", "realloc of released memory", s.model); return B_DEAD; }
  if (!o || o->region != RG_HEAP || o->base != a[0].c) { bug(s, "bad-free", "realloc of something not allocated", s.model); return B_DEAD; }
  u64 p = heapAlloc(s, a[1].c, false);
  if (!p) { ret = VC(0); return B_OK; }
  o = s.mem.find(a[0].c);
  Obj *n = s.mem.writable(s.mem.find(p));
  u32 k = o->size < n->size ? o->size : n->size;
  memcpy(n->d.data(), o->d.data(), k);
  if (!o->s.empty()) { n->s.assign(n->size, nullptr); for (u32 i = 0; i < k; i++) n->s[i] = o->s[i]; }
  heapFree(s, a[0].c);
  ret = VC(p);
  return B_OK;
}
static bool copyMem(State &s, u64 d, u64 f, u64 n) {
  if (!n) return true;
  Obj *o = objAt(s, f, n, false); if (!o) return false;
  Obj *t = objAt(s, d, n, true); if (!t) return false;
  ref(o);
  t = s.mem.writable(t);
  if (t != o) {
    memcpy(&t->d[d - t->base], &o->d[f - o->base], n);
    if (!o->s.empty() || !t->s.empty()) {
      if (t->s.empty()) t->s.assign(t->size, nullptr);
      for (u64 i = 0; i < n; i++) t->s[d - t->base + i] = o->s.empty() ? nullptr : o->s[f - o->base + i];
    }
  } else {
    memmove(&t->d[d - t->base], &t->d[f - t->base], n);
    if (!t->s.empty()) memmove(&t->s[d - t->base], &t->s[f - t->base], n * sizeof(Expr*));
  }
  unref(o);
  return true;
}
BI(bi_memcpy) { CONC(0); CONC(1); CONC(2);
  if (a[2].c && a[0].c != a[1].c && a[0].c < a[1].c + a[2].c && a[1].c < a[0].c + a[2].c) { bug(s, "overlap", "memcpy between overlapping regions", s.model); return B_DEAD; }
  if (!copyMem(s, a[0].c, a[1].c, a[2].c)) return B_DEAD; ret = a[0]; return B_OK; }
BI(bi_memmove) { CONC(0); CONC(1); CONC(2); if (!copyMem(s, a[0].c, a[1].c, a[2].c)) return B_DEAD; ret = a[0]; return B_OK; }
BI(bi_memset) {
  CONC(0); CONC(2); ret = a[0];
  if (!a[2].c) return B_OK;
  Obj *o = objAt(s, a[0].c, a[2].c, true); if (!o) return B_DEAD;
  o = s.mem.writable(o); u64 off = a[0].c - o->base;
  if (!a[1].e) { memset(&o->d[off], (int)a[1].c, a[2].c); if (!o->s.empty()) for (u64 i = 0; i < a[2].c; i++) o->s[off + i] = nullptr; }
  else for (u64 i = 0; i < a[2].c; i++) storeObj(o, off + i, 1, VE(mkExtract(a[1].e, 0, 8)));
  return B_OK;
}
BI(bi_strlen) {
  (void)in; u64 n;
  simp(s, a[0]); if (a[0].e || !isConcreteCStr(s, a[0].c, ~0ULL, &n)) return B_BODY;
  ret = VC(n); return B_OK;
}
BI(bi_strcmp) {
  (void)in; u64 n, k;
  simp(s, a[0]); simp(s, a[1]);
  if (a[0].e || a[1].e || !isConcreteCStr(s, a[0].c, ~0ULL, &n) || !isConcreteCStr(s, a[1].c, ~0ULL, &k)) return B_BODY;
  Obj *x = s.mem.find(a[0].c), *y = s.mem.find(a[1].c);
  int r = strcmp((char*)&x->d[a[0].c - x->base], (char*)&y->d[a[1].c - y->base]);
  ret = VC((u32)(r < 0 ? -1 : r > 0)); return B_OK;
}
BI(bi_trap) { (void)in; (void)a; (void)ret; bug(s, "abort", "abort() or trap reached", s.model); return B_DEAD; }
BI(bi_exit) { (void)in; (void)a; (void)ret; bug(s, "exit", "unexpected exit()", s.model); return B_DEAD; }
BI(bi_nop) { (void)s; (void)in; (void)a; (void)ret; return B_OK; }
BI(bi_va_start) {
  CONC(0);
  Frame &f = s.st.back();
  u64 p = a[0].c;
  if (!storeVal(s, VC(p), 4, VC(48)) || !storeVal(s, VC(p + 4), 4, VC(176)) || !storeVal(s, VC(p + 8), 8, VC(f.va)) || !storeVal(s, VC(p + 16), 8, VC(0))) return B_DEAD;
  ret = VC(0); return B_OK;
}
BI(bi_va_copy) { CONC(0); CONC(1); ret = VC(0); return copyMem(s, a[0].c, a[1].c, 24) ? B_OK : B_DEAD; }
BI(bi_expect) { (void)s; (void)in; ret = a[0]; return B_OK; }
static int nameId(const std::string &n) {
  auto it = g_nameId.find(n);
  if (it != g_nameId.end()) return it->second;
  int k = (int)g_names.size(); g_names.push_back(n); g_nameId[n] = k; return k;
}
static Expr *newSym(State &s, int name, unsigned w) {
  Expr *v = mkVar((unsigned)s.syms.size(), w);
  s.syms.push_back({name, (u8)w}); s.model.resize(s.syms.size(), 0); s.model[s.syms.size() - 1] = 0;
  return v;
}
BI(bi_vp_sym) {           /* uint64_t vp_sym(int bits, const char *name) */
  CONC(0); std::string n; bool sym; if (!readCStr(s, a[1].c, n, &sym)) return B_DEAD; (void)in;
  Expr *v = newSym(s, nameId(n), (unsigned)a[0].c);
  ret = VE(mk(ZEXT, 64, v)); return B_OK;
}
BI(bi_vp_bytes) {         /* void vp_bytes(void *p, size_t n, const char *name) */
  CONC(0); CONC(1); std::string n; bool sym; if (!readCStr(s, a[2].c, n, &sym)) return B_DEAD; (void)ret;
  if (!a[1].c) return B_OK;
  Obj *o = objAt(s, a[0].c, a[1].c, true); if (!o) return B_DEAD;
  o = s.mem.writable(o); int id = nameId(n);
  for (u64 i = 0; i < a[1].c; i++) storeObj(o, a[0].c - o->base + i, 1, VE(newSym(s, id, 8)));
  return B_OK;
}
static Expr *truth(const Val &v, unsigned w) { return mkNot(mk(EQ, 1, toE(v, w), mkConst(0, w))); }
BI(bi_vp_assume) {
  (void)ret; simp(s, a[0]);
  if (!a[0].e) { if (a[0].c) return B_OK; __sync_fetch_and_add(&SH->st.killed, 1); return B_DEAD; }
  Expr *c = truth(a[0], in.argw[0]);
  if (evalExpr(c, s.model)) { addC(s, c); return B_OK; }
  std::vector<u64> nm;
  Res r = solve(s.cs, c, s.model, &nm);
  if (r == SAT) { s.model = nm; addC(s, c); return B_OK; }
  if (r == UNKNOWN) engineErr(&s, "solver gave no answer (assume)");
  __sync_fetch_and_add(&SH->st.killed, 1);
  return B_DEAD;
}
BI(bi_vp_assert) {        /* void vp_assert_(int c, const char *msg) */
  (void)ret;
  __sync_fetch_and_add(&SH->st.asserts, 1);
  simp(s, a[0]);
  std::string msg; bool sym;
  if (!a[0].e) {
    if (a[0].c) return B_OK;
    readCStr(s, a[1].c, msg, &sym);
    bug(s, "assert", msg, s.model); return B_DEAD;
  }
  Expr *c = truth(a[0], in.argw[0]); u64 kv;
  if (isC(c)) kv = c->c; 
  if (isC(c) || knownVal(s, c, &kv)) {
    if (kv) return B_OK;
    readCStr(s, a[1].c, msg, &sym); bug(s, "assert", msg, s.model); return B_DEAD;
  }
  std::vector<u64> nm;
  Expr *nc = mkNot(c);
  if (evalExpr(nc, s.model)) {
    readCStr(s, a[1].c, msg, &sym); bug(s, "assert", msg, s.model);
    Res r = solve(s.cs, c, s.model, &nm);
    if (r != SAT) return B_DEAD;
    s.model = nm; addC(s, c); return B_OK;
  }
  Res r = solve(s.cs, nc, s.model, &nm);
  if (r == SAT) { readCStr(s, a[1].c, msg, &sym); bug(s, "assert", msg, nm); addC(s, c); }
  else if (r == UNKNOWN) engineErr(&s, "solver gave no answer (assert)");
  return B_OK;
}
BI(bi_vp_fail) { (void)in; (void)ret; std::string msg; bool sym; readCStr(s, a[0].c, msg, &sym); bug(s, "assert", msg, s.model); return B_DEAD; }
BI(bi_vp_reach) {
  (void)in; (void)ret; std::string n; bool sym; if (!readCStr(s, a[0].c, n, &sym)) return B_DEAD;
  u64 h = 1469598103934665603ULL; for (char c : n) h = (h ^ (u8)c) * 1099511628211ULL;
  (void)h;
  for (size_t i = 0; i < g_reachNames.size(); i++) if (g_reachNames[i] == n) { SH->reach[i] = 1; return B_OK; }
  engineErr(&s, "undeclared reach label " + n);
  return B_OK;
}
BI(bi_vp_param) {
  (void)in; std::string n; bool sym; if (!readCStr(s, a[0].c, n, &sym)) return B_DEAD;
  auto it = g_params.find(n); ret = it == g_params.end() ? a[1] : VC((u64)it->second); return B_OK;
}
BI(bi_vp_live) { (void)in; (void)a; ret = VC((u64)s.live); return B_OK; }
BI(bi_vp_note) { (void)in; (void)ret; s.notes.push_back(a[0]); return B_OK; }
BI(bi_vp_conc) { CONC(0); ret = a[0]; return B_OK; }
BI(bi_vp_done) { (void)in; (void)a; (void)ret; pathDone(s); return B_DEAD; }
BI(bi_vp_symbolic) { (void)s; (void)in; (void)a; ret = VC(1); return B_OK; }
BI(bi_tls) { (void)s; (void)in; ret = a[0]; return B_OK; }     /* one thread: the variable itself */
BI(bi_vp_is_sym) { (void)s; (void)in; simp(s, a[0]); ret = VC(a[0].e != nullptr); return B_OK; }
BI(bi_vp_sysexit) { (void)in; (void)a; (void)ret; engineErr(&s, "harness error"); return B_DEAD; }
/* are n bytes at p readable? (engine: exact object bounds) */
BI(bi_setjmp) {
  CONC(0);
  Frame &f = s.st.back();
  Jmp j{s.st.size(), f.pc + 1, in.dst, s.jmps.size() + 1};
  s.jmps.push_back(j);
  if (!storeVal(s, VC(a[0].c), 8, VC(s.jmps.size()))) return B_DEAD;
  ret = VC(0); return B_OK;
}
static void popFrame(State &s) {
  Frame &f = s.st.back();
  for (u64 p : f.allocas) { Obj *o = s.mem.find(p); if (o) s.mem.release(o); }
  if (!f.allocas.empty()) { u32 pg = Mem::pageOf(f.allocas[0]); s.mem.t[RG_STACK].next = pg; }
  s.st.pop_back();
}
BI(bi_longjmp) {
  CONC(0); CONC(1); (void)ret;
  Val id; if (!loadVal(s, a[0], 8, id)) return B_DEAD;
  if (id.e || !id.c || id.c > s.jmps.size()) { bug(s, "longjmp", "longjmp to an unset buffer", s.model); return B_DEAD; }
  Jmp j = s.jmps[id.c - 1];
  if (j.depth > s.st.size()) { bug(s, "longjmp", "longjmp to a finished function", s.model); return B_DEAD; }
  while (s.st.size() > j.depth) popFrame(s);
  Frame &f = s.st.back();
  f.pc = j.pc; if (j.dst >= 0) f.regs[j.dst] = VC(a[1].c ? a[1].c & mask(32) : 1);
  return B_JUMPED;
}
BI(bi_assertfail) { (void)in; (void)ret; std::string m; bool sym; readCStr(s, a[0].c, m, &sym); bug(s, "assert", "assert() in the code: " + m, s.model); return B_DEAD; }
BI(bi_memcmpfast) { (void)s; (void)in; (void)a; (void)ret; return B_BODY; }

static const struct { const char *n; Builtin b; } g_bi[] = {
  {"malloc", bi_malloc}, {"calloc", bi_calloc}, {"realloc", bi_realloc}, {"free", bi_free},
  {"memcpy", bi_memcpy}, {"memmove", bi_memmove}, {"memset", bi_memset},
  {"strlen", bi_strlen}, {"strcmp", bi_strcmp},
  {"abort", bi_trap}, {"exit", bi_exit}, {"_exit", bi_exit}, {"__assert_fail", bi_assertfail},
  {"setjmp", bi_setjmp}, {"_setjmp", bi_setjmp}, {"__sigsetjmp", bi_setjmp}, {"longjmp", bi_longjmp}, {"_longjmp", bi_longjmp},
  {"vp_sym", bi_vp_sym}, {"vp_bytes", bi_vp_bytes}, {"vp_assume_", bi_vp_assume}, {"vp_assert_", bi_vp_assert}, {"vp_fail", bi_vp_fail},
  {"vp_reach", bi_vp_reach}, {"vp_param", bi_vp_param}, {"vp_live", bi_vp_live}, {"vp_note", bi_vp_note}, {"vp_conc", bi_vp_conc},
  {"vp_done", bi_vp_done}, {"vp_symbolic", bi_vp_symbolic}, {"vp_is_sym", bi_vp_is_sym}, {"vp_sysexit", bi_vp_sysexit},
};
static Builtin findBuiltin(const std::string &n) {
  for (auto &b : g_bi) if (n == b.n) return b.b;
  auto sw = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (sw("llvm.memcpy")) return bi_memcpy;     /* clang emits it for struct copies: exact overlap of identical objects is allowed */
  if (sw("llvm.memmove")) return bi_memmove;
  if (sw("llvm.memset")) return bi_memset;
  if (sw("llvm.va_start")) return bi_va_start;
  if (sw("llvm.va_end")) return bi_nop;
  if (sw("llvm.va_copy")) return bi_va_copy;
  if (sw("llvm.expect")) return bi_expect;
  if (sw("llvm.trap") || sw("llvm.ubsantrap")) return bi_trap;
  if (sw("llvm.threadlocal.address")) return bi_tls;
  if (sw("llvm.stacksave") || sw("llvm.stackrestore") || sw("llvm.prefetch")) return bi_nop;
  return nullptr;
}

/* ------------------------------------------------------------------ interpreter */
static inline Val get(State &s, Frame &f, const Opn &o) {
  if (!o.reg) return VC(o.c);
  Val v = f.regs[o.r];
  if (v.e && !s.known.empty()) { for (auto &p : s.known) if (p.first == v.e) return VC(p.second); }
  return v;
}
static inline void takeEdge(State &s, Frame &f, const Edge &e) {
  if (!e.phis.empty()) {
    if (e.phis.size() == 1) { Val v = get(s, f, e.phis[0].second); f.regs[e.phis[0].first] = v; }
    else {
      Val tmp[64]; std::vector<Val> big; Val *t = tmp;
      if (e.phis.size() > 64) { big.resize(e.phis.size()); t = big.data(); }
      for (size_t i = 0; i < e.phis.size(); i++) t[i] = get(s, f, e.phis[i].second);
      for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].first] = t[i];
    }
  }
  f.pc = e.target;
  SH->blkHit[e.blk] = 1;
}
static void pushFrame(State &s, FuncInfo *fi, std::vector<Val> &args, std::vector<u8> &, int dst) {
  if (!fi->translated) translate(fi);
  SH->fnHit[fi->id] = 1; SH->blkHit[fi->blk0] = 1;
  Frame nf; nf.fn = fi; nf.pc = 0; nf.regs.assign(fi->nregs, VC(0)); nf.va = 0; nf.callDst = dst;
  size_t np = fi->f->arg_size();
  for (size_t i = 0; i < np && i < args.size(); i++) nf.regs[i] = args[i];
  if (fi->f->isVarArg()) {
    size_t nv = args.size() > np ? args.size() - np : 0;
    Obj *o = s.mem.alloc(RG_STACK, (u32)(nv * 8), true);
    for (size_t i = 0; i < nv; i++) { Val v = args[np + i]; if (v.e && v.e->w < 64) v = VE(mk(ZEXT, 64, v.e)); storeObj(o, i * 8, 8, v); }
    nf.va = o->base; nf.allocas.push_back(o->base);
  }
  s.st.push_back(std::move(nf));
}

/* run s until it ends or branches; true: s still alive */
enum StepR { ALIVE, DEAD };
static State *g_cur;
static StepR run(State &s, u64 budget) {
  while (budget--) {
    Frame &f = s.st.back();
    Inst &in = f.fn->code[f.pc];
    s.insts++;
    if (s.insts > g_maxPathInst) { bug(s, "non-termination", "step limit reached", s.model); return DEAD; }
    switch (in.op) {
    case I_BIN: {
      Val a = get(s, f, in.a), b = get(s, f, in.b);
      Op op = (Op)in.sub;
      if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
        if (!b.e) { if (!(b.c & mask(in.w))) { bug(s, "div-by-zero", "division by zero", s.model); return DEAD; } }
        else {
          State *oth; Expr *z = mk(EQ, 1, b.e, mkConst(0, in.w));
          int r = decide(s, z, &oth);
          if (r) { bug(s, "div-by-zero", "division by zero", s.model); if (oth) g_work.push_back(oth); return DEAD; }
          if (oth) { bug(s, "div-by-zero", "division by zero", oth->model); delete oth; }
        }
      }
      if (op == SHL || op == LSHR || op == ASHR) {      /* x86: the count is taken modulo the width */
        if (!b.e) b.c &= (in.w == 64 ? 63 : 31); else b = VE(mk(AND, in.w, b.e, mkConst(in.w == 64 ? 63 : 31, in.w)));
      }
      Val r;
      if (!a.e && !b.e) { bool ok; r = VC(foldOp(op, in.w, in.w, a.c & mask(in.w), b.c & mask(in.w), 0, &ok)); }
      else r = VE(mk(op, in.w, toE(a, in.w), toE(b, in.w)));
      f.regs[in.dst] = r; f.pc++; break;
    }
    case I_ICMP: {
      Val a = get(s, f, in.a), b = get(s, f, in.b);
      if (in.swap) { Val t = a; a = b; b = t; }
      Val r;
      if (!a.e && !b.e) { bool ok; r = VC(foldOp((Op)in.sub, 1, in.kw, a.c & mask(in.kw), b.c & mask(in.kw), 0, &ok) ^ (in.neg ? 1 : 0)); }
      else { Expr *e = mk((Op)in.sub, 1, toE(a, in.kw), toE(b, in.kw)); r = VE(in.neg ? mkNot(e) : e); }
      f.regs[in.dst] = r; f.pc++; break;
    }
    case I_FCMP: {
      Val a = get(s, f, in.a), b = get(s, f, in.b);
      f.regs[in.dst] = VE(mk(FCMP, 1, toE(a, in.kw), toE(b, in.kw), nullptr, in.imm)); f.pc++; break;
    }
    case I_FNEG: {
      Val a = get(s, f, in.a); u64 sb = 1ULL << (in.w - 1);
      f.regs[in.dst] = a.e ? VE(mk(XOR, in.w, a.e, mkConst(sb, in.w))) : VC(a.c ^ sb); f.pc++; break;
    }
    case I_CAST: {
      Val a = get(s, f, in.a);
      if (!a.e) { bool ok; f.regs[in.dst] = VC(foldOp((Op)in.sub, in.w, in.kw, a.c & mask(in.kw), 0, 0, &ok) & mask(in.w)); }
      else f.regs[in.dst] = VE(mk((Op)in.sub, in.w, a.e));
      f.pc++; break;
    }
    case I_MOV: f.regs[in.dst] = get(s, f, in.a); f.pc++; break;
    case I_LOAD: {
      Val a = get(s, f, in.a), r;
      if (!a.e) {
        Obj *o = s.mem.find(a.c);
        if (!o || o == g_freed || a.c < o->base || a.c - o->base + in.imm > o->size) { memErr(s, a.c, in.imm, false, o); return DEAD; }
        r = loadObj(o, a.c - o->base, (unsigned)in.imm);
      } else if (!loadVal(s, a, (unsigned)in.imm, r)) return DEAD;
      if (in.w < in.imm * 8) { if (r.e) r = VE(mkExtract(r.e, 0, in.w)); else r.c &= mask(in.w); }
      Frame &f2 = s.st.back();
      f2.regs[in.dst] = r; f2.pc++; break;
    }
    case I_STORE: {
      Val a = get(s, f, in.a), v = get(s, f, in.b);
      if (!v.e) v.c &= mask(in.kw);
      if (!storeVal(s, a, (unsigned)in.imm, v)) return DEAD;
      f.pc++; break;
    }
    case I_GEP: {
      Val a = get(s, f, in.a);
      u64 off = in.imm; Expr *e = nullptr;
      for (size_t i = 0; i < in.idx.size(); i++) {
        Val x = get(s, f, in.idx[i].first);
        if (!x.e) off += (u64)sx(x.c & mask(in.argw[i]), in.argw[i]) * (u64)in.idx[i].second;
        else {
          Expr *t = mk(SEXT, 64, x.e); t = mk(MUL, 64, t, mkConst((u64)in.idx[i].second, 64));
          e = e ? mk(ADD, 64, e, t) : t;
        }
      }
      if (!e && !a.e) f.regs[in.dst] = VC(a.c + off);
      else {
        Expr *b = mk(ADD, 64, toE(a, 64), mkConst(off, 64));
        f.regs[in.dst] = VE(e ? mk(ADD, 64, e, b) : b);
      }
      f.pc++; break;
    }
    case I_ALLOCA: {
      Val n = get(s, f, in.a);
      concretize(s, n, in.kw);
      u64 sz = n.c * in.imm;
      if (sz > (u64)g_maxAlloca) { bug(s, "stack-overflow", "huge stack allocation", s.model); return DEAD; }
      Obj *o = s.mem.alloc(RG_STACK, (u32)sz, true);
      f.allocas.push_back(o->base); f.regs[in.dst] = VC(o->base); f.pc++; break;
    }
    case I_BR: takeEdge(s, f, in.edges[0]); break;
    case I_CBR: {
      Val c = get(s, f, in.a);
      if (!c.e) { takeEdge(s, f, in.edges[(c.c & 1) ? 0 : 1]); break; }
      State *oth; int r = decide(s, c.e, &oth);
      if (oth) { takeEdge(*oth, oth->st.back(), in.edges[r ? 1 : 0]); g_work.push_back(oth); }
      takeEdge(s, f, in.edges[r ? 0 : 1]);
      if (oth) return ALIVE;
      break;
    }
    case I_SWITCH: {
      Val c = get(s, f, in.a);
      simp(s, c);
      if (!c.e) {
        size_t k = 0; u64 v = c.c & mask(in.kw);
        for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) { k = i + 1; break; }
        takeEdge(s, f, in.edges[k]); break;
      }
      /* which edge does the model take?  the rest is explored by a copy */
      u64 v = evalExpr(c.e, s.model); size_t k = 0;
      for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) { k = i + 1; break; }
      Expr *cond = mkConst(0, 1);
      int tgt = in.edges[k].target;
      for (size_t i = 0; i < in.cases.size(); i++)
        if ((k && in.cases[i] == v) || (k && in.edges[i + 1].target == tgt && in.edges[i + 1].phis.empty()) || !k) cond = mk(OR, 1, cond, mk(EQ, 1, c.e, mkConst(in.cases[i], in.kw)));
      if (!k) cond = mkNot(cond);
      State *oth; decide(s, cond, &oth);
      if (oth) g_work.push_back(oth);
      takeEdge(s, f, in.edges[k]);
      if (oth) return ALIVE;
      break;
    }
    case I_SELECT: {
      Val c = get(s, f, in.a), a = get(s, f, in.b), b = get(s, f, in.c);
      if (!c.e) f.regs[in.dst] = (c.c & 1) ? a : b;
      else f.regs[in.dst] = VE(mk(ITE, in.w, c.e, toE(a, in.w), toE(b, in.w)));
      f.pc++; break;
    }
    case I_RET: {
      Val r = in.neg ? get(s, f, in.a) : VC(0);
      int dst = f.callDst;
      std::vector<Val> many; for (auto &o : in.args) many.push_back(get(s, f, o));
      popFrame(s);
      if (s.st.empty()) { pathDone(s); return DEAD; }
      Frame &p = s.st.back();
      if (dst >= 0 && many.empty()) p.regs[dst] = r;
      else if (dst >= 0) {
        const std::vector<u64> &ws = p.fn->code[p.pc - 1].cases;        /* the call just returned from */
        for (size_t j = 0; j < many.size() && j < ws.size(); j++) { Val v = many[j]; if (!v.e) v.c &= mask(ws[j]); else if (v.e->w > ws[j]) v = VE(mkExtract(v.e, 0, ws[j])); p.regs[dst + j] = v; }
      }
      break;
    }
    case I_CALL: {
      FuncInfo *fi = in.callee;
      if (!fi) {
        Val p = get(s, f, in.a);
        concretize(s, p, 64);
        if ((p.c >> 40) != RG_FUNC || ((p.c & 0xFFFFFFFFFF) >> 4) >= g_funcs.size()) { bug(s, "bad-call", p.c ? "call through an invalid function pointer" : "call through a null function pointer", s.model); return DEAD; }
        fi = g_funcs[(p.c & 0xFFFFFFFFFF) >> 4];
      }
      std::vector<Val> args(in.args.size());
      for (size_t i = 0; i < in.args.size(); i++) { args[i] = get(s, f, in.args[i]); if (!args[i].e && in.argw[i]) args[i].c &= mask(in.argw[i]); }
      if (fi->bi) {
        Val ret = VC(0);
        BR r = fi->bi(s, in, args, ret);
        if (r == B_DEAD) return DEAD;
        if (r == B_JUMPED) break;
        if (r == B_OK) { Frame &g = s.st.back(); if (in.dst >= 0) { if (!ret.e && in.w) ret.c &= mask(in.w); else if (ret.e && in.w && ret.e->w > in.w) ret = VE(mkExtract(ret.e, 0, in.w)); g.regs[in.dst] = ret; } g.pc++; break; }
        if (r == B_RETRY) return ALIVE;
      }
      if (!fi->body) { engineErr(&s, "call of unmodelled function " + fi->name); return DEAD; }
      if ((int)s.st.size() > g_maxFrames) { bug(s, "stack-overflow", "recursion too deep", s.model); return DEAD; }
      f.pc++;
      int dst = in.dst; Inst *pin = &in;
      for (size_t i = 0; i < pin->byval.size(); i++) if (pin->byval[i]) {
        Obj *o = s.mem.alloc(RG_STACK, pin->byval[i], true); u64 b = o->base;
        if (!copyMem(s, b, args[i].c, pin->byval[i])) return DEAD;
        args[i] = VC(b);
      }
      pushFrame(s, fi, args, in.argw, dst);
      break;
    }
    case I_UNREACH: bug(s, "unreachable", "unreachable code executed", s.model); return DEAD;
    default: engineErr(&s, "unsupported instruction"); return DEAD;
    }
  }
  return ALIVE;
}

/* ------------------------------------------------------------------ scheduling */
static bool g_child = false;
static void checkStop() {
  if (nowUs() > SH->deadlineUs) { SH->timedOut = 1; SH->stop = 1; }
}
static void maybeSplit() {
  if (g_work.empty() || SH->tokens <= 0) return;
  int t = __sync_sub_and_fetch(&SH->tokens, 1);
  if (t < 0) { __sync_add_and_fetch(&SH->tokens, 1); return; }
  __sync_add_and_fetch(&SH->active, 1);
  pid_t p = fork();
  if (p < 0) { __sync_add_and_fetch(&SH->tokens, 1); __sync_sub_and_fetch(&SH->active, 1); return; }
  size_t half = (g_work.size() + 1) / 2;
  if (p == 0) {
    g_child = true;
    /* the child takes the oldest half; leak the rest */
    std::deque<State*> w(g_work.begin(), g_work.begin() + half);
    g_work.swap(w); g_cur = nullptr;
  } else {
    g_work.erase(g_work.begin(), g_work.begin() + half);  /* leaked here, lives in the child */
  }
}
static void explore(State *first) {
  g_cur = first; u64 tick = 0;
  for (;;) {
    if (!g_cur) {
      if (g_work.empty()) break;
      g_cur = g_work.back(); g_work.pop_back();
    }
    if ((++tick & 63) == 0) checkStop();
    if (SH->stop) break;
    u64 before = g_cur->insts;
    StepR r = run(*g_cur, 200000);
    __sync_fetch_and_add(&SH->st.insts, g_cur->insts - before);
    if (g_cur->insts - before > 100000) checkStop();
    if (r == DEAD) { delete g_cur; g_cur = nullptr; }
    if (g_nexpr > 40000000u) { engineErr(nullptr, "expression limit reached"); SH->stop = 1; }
    maybeSplit();
  }
}

int main(int argc, char **argv) {
  std::string bc, out, entry = "main"; int jobs = 4; double maxTime = 300; std::vector<std::string> reach;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "--max-time") maxTime = atof(argv[++i]); else if (a == "--max-tests") g_maxTests = atoi(argv[++i]);
    else if (a == "--max-bugs") g_maxBugs = atoi(argv[++i]); else if (a == "--max-path-insts") g_maxPathInst = strtoull(argv[++i], 0, 10);
    else if (a == "--qtimeout") g_qtimeout = atoi(argv[++i]); else if (a == "--fill") g_fill = (u8)strtoul(argv[++i], 0, 0);
    else if (a == "--dump") g_dump = argv[++i]; else if (a == "--trace") g_trace = true;
    else if (a == "-P") { std::string p = nx(); size_t e = p.find('='); g_params[p.substr(0, e)] = atol(p.c_str() + e + 1); if (p.substr(0, e) == "lifo") g_reuse = atol(p.c_str() + e + 1); if (p.substr(0, e) == "stack") g_maxAlloca = atol(p.c_str() + e + 1) << 10; }
    else bc = a;
  }
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)SH, 0, sizeof *SH);
  g_st = &SH->st;
  SH->tokens = jobs - 1; SH->active = 1; SH->deadlineUs = nowUs() + (u64)(maxTime * 1e6);
  g_out = out.empty() ? 1 : open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  signal(SIGCHLD, SIG_IGN);
  struct rlimit rl = {512u << 20, 512u << 20}; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("vse", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  solverInit();
  g_freed = new Obj; g_freed->rc = 1 << 28; g_freed->size = 0; g_freed->base = 0; g_freed->npages = 0; g_freed->freed = true;
  /* functions */
  for (auto &f : *M) {
    FuncInfo *fi = new FuncInfo; fi->f = &f; fi->name = f.getName().str(); fi->id = (int)g_funcs.size();
    fi->addr = ((u64)RG_FUNC << 40) | ((u64)fi->id << 4); fi->body = !f.isDeclaration(); fi->bi = findBuiltin(fi->name);
    g_funcs.push_back(fi); g_fmap[&f] = fi;
    if (fi->id >= 4096) { fprintf(stderr, "ENGINE: too many functions\n"); return 3; }
  }
  /* rarer intrinsics have a body in the C-library model: llvm.ctpop.i32 -> vpi_ctpop_i32 */
  for (FuncInfo *fi : g_funcs) if (!fi->body && !fi->bi && fi->name.compare(0, 5, "llvm.") == 0) {
    std::string m = "vpi_" + fi->name.substr(5); for (auto &c : m) if (c == '.') c = '_';
    if (Function *bf = M->getFunction(m)) if (!bf->isDeclaration()) g_fmap[fi->f] = g_fmap[bf];
  }
  /* id 0 must not give a null-looking pointer: region bits make it non-zero */
  State *s = new State; s->fixed.clear();
  for (auto &g : M->globals()) {
    if (g.getName().startswith("llvm.")) { g_gaddr[&g] = 0; continue; }
    u64 sz = DL->getTypeAllocSize(g.getValueType());
    Obj *o = s->mem.alloc(RG_GLOBAL, (u32)sz, false);
    g_gaddr[&g] = o->base;
    if (!g.hasInitializer()) { /* unresolved external: only an error when something looks at it */ o->size = 0; o->d.clear(); }
  }
  for (auto &g : M->globals()) {
    if (!g.hasInitializer() || g.getName().startswith("llvm.")) continue;
    Obj *o = s->mem.find(g_gaddr[&g]);
    writeInit(o, 0, g.getInitializer());
    o->ro = g.isConstant();
  }
  /* reach labels: every string constant handed to vp_reach */
  if (Function *rf = M->getFunction("vp_reach"))
    for (auto *u : rf->users())
      if (auto *c = dyn_cast<CallInst>(u)) {
        if (auto *g = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts()))
          if (g->hasInitializer()) if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) {
            std::string n = cd->getAsCString().str(); bool have = false;
            for (auto &x : g_reachNames) have |= x == n;
            if (!have) g_reachNames.push_back(n);
          }
      }
  Function *ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "ENGINE: no entry %s\n", entry.c_str()); return 3; }
  /* translate everything first so that block numbers agree between processes */
  for (FuncInfo *fi : g_funcs) if (fi->body) translate(fi);
  if (g_nblk > (1 << 17)) { fprintf(stderr, "ENGINE: too many blocks\n"); return 3; }
  std::vector<Val> noargs(ef->arg_size(), VC(0)); std::vector<u8> nw;
  pushFrame(*s, g_fmap[ef], noargs, nw, -1);
  u64 t0 = nowUs();
  explore(s);
  if (g_child) { __sync_add_and_fetch(&SH->tokens, 1); __sync_sub_and_fetch(&SH->active, 1); _exit(0); }
  __sync_sub_and_fetch(&SH->active, 1); __sync_add_and_fetch(&SH->tokens, 1);
  while (SH->active > 0) {
    usleep(500);
    checkStop();
    if (SH->timedOut && nowUs() > SH->deadlineUs + 20000000ULL) break;
  }
  Stats &st = SH->st;
  std::string fns = "[", rch = "{"; bool ff = true;
  for (FuncInfo *fi : g_funcs) if (SH->fnHit[fi->id]) {
    int nb = 0, hb = 0; int k = fi->blk0;
    for (size_t i = 0; i < fi->f->size(); i++) { nb++; hb += SH->blkHit[k + i]; }
    std::string file; if (auto *sp = fi->f->getSubprogram()) file = sp->getFilename().str();
    fns += std::string(ff ? "" : ",") + "[" + jq(fi->name) + "," + jq(file) + "," + std::to_string(hb) + "," + std::to_string(nb) + "]"; ff = false;
  }
  fns += "]";
  for (size_t i = 0; i < g_reachNames.size(); i++) rch += std::string(i ? "," : "") + jq(g_reachNames[i]) + ":" + (SH->reach[i] ? "true" : "false");
  rch += "}";
  char b[1024];
  snprintf(b, sizeof b, "{\"t\":\"sum\",\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhits\":%llu,\"solver_us\":%llu,\"slowest_us\":%llu,\"depth\":%llu,\"bugs\":%llu,\"errs\":%llu,\"asserts\":%llu,\"killed\":%llu,\"timeout\":%d,\"stopped\":%d,\"wall\":%.3f,",
    (unsigned long long)st.paths, (unsigned long long)st.forks, (unsigned long long)st.insts, (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.solverUs, (unsigned long long)st.slowest, (unsigned long long)st.maxDepth, (unsigned long long)st.bugs, (unsigned long long)st.engineErrs, (unsigned long long)st.asserts, (unsigned long long)st.killed, SH->timedOut, SH->stop, (nowUs() - t0) / 1e6);
  emitLine(std::string(b) + "\"reach\":" + rch + ",\"functions\":" + fns + "}");
  _exit(0);
}
