// psym: symbolic executor for LLVM bitcode, SMT-backed (z3).  See /verif/DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Operator.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
using namespace llvm;

// ------------------------------------------------------------------ values
struct Val { Expr *e; u64 v; };
static inline Val cv(u64 v) { return Val{nullptr, v}; }
static inline Val ev(Expr *e) { if (e->isConst()) return Val{nullptr, e->val}; return Val{e, 0}; }
static inline Expr *toE(const Val &x, unsigned w) { return x.e ? x.e : mkConst(x.v, w); }

struct Opn { int reg = -1; u64 c = 0; };   // reg>=0: register; else constant
enum XOp : uint16_t { X_BIN, X_ICMP, X_FBIN, X_FCMP, X_LOAD, X_STORE, X_ALLOCA, X_GEP, X_TRUNC, X_ZEXT, X_SEXT, X_MOVE, X_FCAST,
  X_SELECT, X_CALL, X_RET, X_BR, X_CBR, X_SWITCH, X_UNREACH, X_FNEG, X_MULTIMOVE, X_UNSUP, X_ATOMICRMW, X_CMPXCHG };
struct FuncInfo;
struct Ins {
  XOp op; uint8_t w = 0, w2 = 0; int pred = 0; int dst = -1, nd = 1; Opn a, b, c; std::vector<Opn> args; std::vector<unsigned> argw;
  std::vector<std::pair<Opn, i64>> gep; std::vector<uint8_t> gepw; i64 goff = 0;
  int t = -1, f = -1; FuncInfo *callee = nullptr; bool vararg = false; unsigned nfixed = 0;
  const Instruction *I = nullptr; std::vector<std::pair<u64, int>> cases; u64 sz = 0; int lineno = 0; bool sgn = false;
  std::vector<std::tuple<int, unsigned, Opn>> parts; // aggregate field moves: (dst slot offset, width, op)
  std::vector<std::pair<u64, unsigned>> fields; // load/store of aggregates: (offset, width bits)
};
struct Edge { std::vector<std::tuple<int, Opn>> moves; };
struct BB { int first; std::map<int, Edge> in; int id; bool covered = false; };
struct FuncInfo {
  Function *F; std::string name, file; bool prepared = false; int nregs = 0; std::vector<Ins> ins; std::vector<BB> bbs; std::vector<int> insBB;
  u64 addr = 0; u64 calls = 0; std::function<int(struct State &, Ins &, std::vector<Val> &, Val *)> builtin; bool hasBuiltin = false; bool isRepo = false; bool fixedVA = false;
};
// ------------------------------------------------------------------ memory
struct Obj {
  u64 addr, size; uint32_t rc = 1; bool ro = false, stack = false, heap = false; Expr *symSize = nullptr;
  std::vector<uint8_t> b; std::vector<Expr *> s; // s empty or size entries (nullptr = concrete)
};
static inline void oref(Obj *o) { o->rc++; }
static inline void ounref(Obj *o) { if (--o->rc == 0) delete o; }
struct Frame { FuncInfo *f; int pc; int curBB; std::vector<Val> regs; std::vector<u64> allocas; const Ins *callIns; u64 vaBlock = 0; };
struct SymRec { Expr *e; u64 lo; unsigned w; std::string name; };
struct LogRec { std::string name; Val v; };
struct PcSet { std::vector<Expr *> v; std::unordered_set<Expr *> s; };
struct State {
  std::vector<Frame> fr; std::vector<Obj *> objs; std::vector<Expr *> pc; std::unordered_set<Expr *> pcset; ModelP model; std::vector<SymRec> syms; std::vector<LogRec> logs;
  u64 nextAddr = 0; u64 steps = 0; unsigned forks = 0; std::map<std::string, unsigned> symSeq; bool approx = false; u64 asserts = 0;
  State() {}
  State(const State &o) : fr(o.fr), objs(o.objs), pc(o.pc), pcset(o.pcset), model(o.model), syms(o.syms), logs(o.logs), nextAddr(o.nextAddr), steps(o.steps), forks(o.forks), symSeq(o.symSeq), approx(o.approx), asserts(o.asserts) { for (auto x : objs) oref(x); }
  ~State() { for (auto x : objs) ounref(x); }
  void add(Expr *c) { if (c->isConst()) return; if (c->kind == K_AND && c->w == 1) { pcset.insert(c); add(c->a); add(c->b); return; } if (pcset.insert(c).second) pc.push_back(c); }
};
// ------------------------------------------------------------------ globals
static Module *M; static const DataLayout *DL; static std::map<const Function *, FuncInfo *> finfo; static std::map<u64, FuncInfo *> faddr;
static std::map<const GlobalVariable *, u64> gaddr; static std::vector<Obj *> globalObjs; static u64 initNext;
static std::vector<State *> work; static bool g_curDead;
static long g_case = 0; static std::map<std::string, long> g_params; static std::string g_repo = "/repo/";
static double g_budget = 60; static u64 g_maxSteps = 50000000ull; static unsigned g_maxDepth = 1500; static unsigned g_maxViol = 6; static unsigned g_samples = 4; static u64 g_maxStates = 200000; static size_t g_memMB = 5000;
static std::string g_out = "/tmp/psym.json", g_dir = "/tmp"; static unsigned g_seed = 1; static bool g_verbose = false; static int g_search = 0;
static u64 nComplete, nKilled, nErr, nForks, nSteps, nAsserts, nAssertsConst, nUnsup, nApprox, nIncomplete, nLimit, nMemChk; static std::map<std::string, u64> reached; static std::map<std::string, u64> unsupWhy;
static std::chrono::steady_clock::time_point T0; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct Viol { std::string kind, msg, func, where, file, stack; }; static std::vector<Viol> viols; static std::map<std::string, int> violCount; static std::vector<std::string> sampleFiles;
static u64 rngs = 88172645463325252ull; static u64 rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

// control-flow outcome of executing an instruction
enum Out { O_NEXT, O_JUMPED, O_DEAD, O_AGAIN };

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static std::string locOf(const Ins &in, FuncInfo *f) {
  std::string r = f->name;
  if (in.I && in.I->getDebugLoc()) { const DILocation *L = in.I->getDebugLoc().get();
    if (L->getInlinedAt() || true) { auto *sp = L->getScope()->getSubprogram(); if (sp) r = sp->getName().str(); }
    r += " (" + L->getFilename().str() + ":" + std::to_string(L->getLine()) + ")"; }
  return r;
}
static std::string funcOf(const Ins &in, FuncInfo *f) {
  if (in.I && in.I->getDebugLoc()) { const DILocation *L = in.I->getDebugLoc().get(); auto *sp = L->getScope()->getSubprogram(); if (sp) return sp->getName().str(); }
  return f->name;
}
// nearest frame that belongs to the repository
static std::string repoWhere(State &s) {
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) { Frame &f = s.fr[i]; if (!f.f->isRepo) continue; int pc = f.pc; if (pc >= (int)f.f->ins.size()) pc = f.f->ins.size() - 1; return funcOf(f.f->ins[pc], f.f); }
  return s.fr.empty() ? "?" : s.fr.back().f->name;
}
static std::string stackStr(State &s) {
  std::string r; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 14; i--, n++) { Frame &f = s.fr[i]; int pc = std::min<int>(f.pc, f.f->ins.size() - 1); r += (n ? " < " : "") + locOf(f.f->ins[pc], f.f); }
  return r;
}
static void writeReplay(const std::string &fn, State &s, Model *m, const std::string &note) {
  FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  fprintf(f, "# %s\n", note.c_str()); fprintf(f, "case %ld\n", g_case);
  for (auto &p : g_params) fprintf(f, "param %s %ld\n", p.first.c_str(), p.second);
  for (auto &r : s.syms) if (r.name[0] != '#') fprintf(f, "sym %s %u %llu\n", r.name.c_str(), r.w, (unsigned long long)((r.lo + evalM(r.e, m)) & maskw(64)));
  for (auto &l : s.logs) fprintf(f, "log %s %llu\n", l.name.c_str(), (unsigned long long)(l.v.e ? evalM(l.v.e, m) : l.v.v));
  fclose(f);
}
static void report(State &s, ModelP m, const std::string &kind, const std::string &msg) {
  nErr++;
  std::string where = repoWhere(s), key = kind + "|" + msg + "|" + where;
  if (violCount[key]++) return;
  if (viols.size() >= g_maxViol * 4) return;
  Viol v; v.kind = kind; v.msg = msg; v.func = where; v.stack = stackStr(s);
  v.file = g_dir + "/viol-" + std::to_string(viols.size()) + ".txt";
  writeReplay(v.file, s, m.get(), kind + ": " + msg + " in " + where);
  if (g_verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.stack.c_str());
  viols.push_back(v);
}
static void unsup(State &s, const std::string &why) { nUnsup++; if (unsupWhy[why]++ == 0 && g_verbose) fprintf(stderr, "UNSUP %s @ %s\n", why.c_str(), stackStr(s).c_str()); }

// ------------------------------------------------------------------ constants / layout
static u64 constAddr(const Constant *C);
static unsigned intW(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  return 0;
}
static void flatten(Type *T, std::vector<std::pair<u64, unsigned>> &out, u64 off = 0) {
  if (auto *st = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es); return; }
  unsigned w = intW(T); out.push_back({off, w}); // w==0 -> unsupported
}
static u64 evalConst(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) return ci->getValue().trunc(64).getZExtValue(); return ci->getZExtValue(); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { if (cf->getType()->isDoubleTy() || cf->getType()->isFloatTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue(); return 0; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (isa<GlobalValue>(C)) return constAddr(C);
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "psym: const gep\n"); return 0; } return evalConst(ce->getOperand(0)) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0)) & maskw(intW(ce->getType()) ? intW(ce->getType()) : 64);
    case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(intW(ce->getType()));
    case Instruction::ZExt: return evalConst(ce->getOperand(0));
    case Instruction::SExt: return (u64)sext(evalConst(ce->getOperand(0)), intW(ce->getOperand(0)->getType())) & maskw(intW(ce->getType()));
    case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & maskw(intW(ce->getType()));
    case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & maskw(intW(ce->getType()));
    case Instruction::Mul: return (evalConst(ce->getOperand(0)) * evalConst(ce->getOperand(1))) & maskw(intW(ce->getType()));
    case Instruction::ICmp: { u64 a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); return ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : ce->getPredicate() == CmpInst::ICMP_NE ? a != b : a < b; }
    default: fprintf(stderr, "psym: constexpr op %s\n", ce->getOpcodeName()); return 0;
    }
  }
  fprintf(stderr, "psym: constant kind?\n"); return 0;
}
static u64 constAddr(const Constant *C) {
  if (auto *f = dyn_cast<Function>(C)) { auto it = finfo.find(f); if (it == finfo.end()) return 0; return it->second->addr; }
  if (auto *g = dyn_cast<GlobalVariable>(C)) return gaddr[g];
  if (auto *al = dyn_cast<GlobalAlias>(C)) return evalConst(al->getAliasee());
  return 0;
}
static void putBytes(Obj *o, u64 off, u64 v, unsigned n) { for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(i < 8 ? v >> (8 * i) : 0); }
static void initGlobal(Obj *o, u64 off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    u64 es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) putBytes(o, off + i * es, cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(), es);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cvv = dyn_cast<ConstantVector>(C)) { u64 es = DL->getTypeAllocSize(cvv->getType()->getElementType()); for (unsigned i = 0; i < cvv->getNumOperands(); i++) initGlobal(o, off + i * es, cvv->getOperand(i)); return; }
  putBytes(o, off, evalConst(C), DL->getTypeStoreSize(T));
}

// ------------------------------------------------------------------ function preparation
static void prepare(FuncInfo *fi) {
  if (fi->prepared) return; fi->prepared = true;
  Function *F = fi->F; std::map<const Value *, std::pair<int, int>> slot; int n = 0;
  std::map<const BasicBlock *, int> bid; int nb = 0;
  for (auto &A : F->args()) { slot[&A] = {n, 1}; n++; }
  for (auto &B : *F) { bid[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) { std::vector<std::pair<u64, unsigned>> fl; flatten(I.getType(), fl); slot[&I] = {n, (int)fl.size()}; n += fl.size(); } }
  fi->nregs = n; fi->bbs.resize(nb);
  auto op = [&](const Value *V) -> Opn { Opn o; if (auto *C = dyn_cast<Constant>(V)) { o.c = evalConst(C); return o; } auto it = slot.find(V); if (it == slot.end()) { o.c = 0; return o; } o.reg = it->second.first; return o; };
  std::function<void(const Value *, std::vector<Opn> &)> aggOps = [&](const Value *V, std::vector<Opn> &out) {
    if (auto *C = dyn_cast<Constant>(V)) {
      std::vector<std::pair<u64, unsigned>> fl; flatten(V->getType(), fl);
      if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || !V->getType()->isAggregateType()) { if (!V->getType()->isAggregateType()) { out.push_back(op(V)); return; } for (size_t i = 0; i < fl.size(); i++) out.push_back(Opn()); return; }
      for (unsigned i = 0; i < C->getNumOperands(); i++) aggOps(C->getOperand(i), out); return; }
    auto p = slot[V]; for (int i = 0; i < p.second; i++) { Opn o; o.reg = p.first + i; out.push_back(o); }
  };
  for (auto &B : *F) {
    BB &bb = fi->bbs[bid[&B]]; bb.id = bid[&B]; bb.first = fi->ins.size();
    for (auto &I : B) {
      if (auto *phi = dyn_cast<PHINode>(&I)) {
        for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) { Edge &e = bb.in[bid[phi->getIncomingBlock(k)]]; std::vector<Opn> src; aggOps(phi->getIncomingValue(k), src);
          // avoid duplicates for multi-edges from the same block
          bool dup = false; for (auto &m : e.moves) if (std::get<0>(m) == slot[phi].first) dup = true;
          if (!dup) for (size_t i = 0; i < src.size(); i++) e.moves.push_back({slot[phi].first + (int)i, src[i]}); }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins in; in.I = &I; in.op = X_UNSUP; if (!I.getType()->isVoidTy()) { in.dst = slot[&I].first; in.nd = slot[&I].second; in.w = intW(I.getType()); }
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (!I.getType()->isIntegerTy() || in.w > 64) break;
        static const std::map<unsigned, Kind> mk = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
        in.op = X_BIN; in.pred = mk.at(I.getOpcode()); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        if (!in.w) break; in.op = X_FBIN; in.pred = I.getOpcode(); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); break;
      case Instruction::FNeg: if (!in.w) break; in.op = X_FNEG; in.a = op(I.getOperand(0)); break;
      case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); in.w2 = intW(c.getOperand(0)->getType()); if (!in.w2 || in.w2 > 64 || !I.getType()->isIntegerTy()) break; in.op = X_ICMP; in.pred = c.getPredicate(); in.a = op(c.getOperand(0)); in.b = op(c.getOperand(1)); break; }
      case Instruction::FCmp: { auto &c = cast<FCmpInst>(I); in.w2 = intW(c.getOperand(0)->getType()); if (!in.w2) break; in.op = X_FCMP; in.pred = c.getPredicate(); in.a = op(c.getOperand(0)); in.b = op(c.getOperand(1)); break; }
      case Instruction::Load: { flatten(I.getType(), in.fields); bool ok = true; for (auto &f : in.fields) if (!f.second || f.second > 64) ok = false; if (!ok) break; in.op = X_LOAD; in.a = op(I.getOperand(0)); break; }
      case Instruction::Store: { flatten(I.getOperand(0)->getType(), in.fields); bool ok = true; for (auto &f : in.fields) if (!f.second || f.second > 64) ok = false; if (!ok) break; in.op = X_STORE; aggOps(I.getOperand(0), in.args); in.b = op(I.getOperand(1)); break; }
      case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); in.op = X_ALLOCA; in.sz = DL->getTypeAllocSize(al.getAllocatedType()); in.a = op(al.getArraySize()); in.w2 = intW(al.getArraySize()->getType()); break; }
      case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(I); if (!g.getType()->isPointerTy()) break; in.op = X_GEP; in.a = op(g.getPointerOperand());
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *idx = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) { in.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          i64 scale = it.getSequentialElementStride(*DL);
          if (auto *ci = dyn_cast<ConstantInt>(idx)) { in.goff += ci->getSExtValue() * scale; continue; }
          in.gep.push_back({op(idx), scale}); in.gepw.push_back(intW(idx->getType()));
        }
        break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: in.w2 = intW(I.getOperand(0)->getType()); if (!in.w || !in.w2 || in.w > 64 || in.w2 > 64) break; in.op = I.getOpcode() == Instruction::Trunc ? X_TRUNC : I.getOpcode() == Instruction::ZExt ? X_ZEXT : X_SEXT; in.a = op(I.getOperand(0)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: in.w2 = intW(I.getOperand(0)->getType()); in.op = in.w < in.w2 ? X_TRUNC : X_ZEXT; in.a = op(I.getOperand(0)); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: if (!in.w || intW(I.getOperand(0)->getType()) != in.w) break; in.op = X_MOVE; in.a = op(I.getOperand(0)); break;
      case Instruction::Freeze: in.op = X_MULTIMOVE; aggOps(I.getOperand(0), in.args); break;
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
        in.w2 = intW(I.getOperand(0)->getType()); if (!in.w || !in.w2) break; in.op = X_FCAST; in.pred = I.getOpcode(); in.a = op(I.getOperand(0)); break;
      case Instruction::Select: { auto &s = cast<SelectInst>(I); if (!s.getCondition()->getType()->isIntegerTy(1)) break; in.op = X_SELECT; in.a = op(s.getCondition()); std::vector<std::pair<u64, unsigned>> fl; flatten(I.getType(), fl); in.fields = fl; std::vector<Opn> x; aggOps(s.getTrueValue(), x); aggOps(s.getFalseValue(), x); in.args = x; if (!fl.empty() && !fl[0].second) in.op = X_UNSUP; break; }
      case Instruction::ExtractValue: { auto &x = cast<ExtractValueInst>(I); std::vector<Opn> src; aggOps(x.getAggregateOperand(), src);
        // compute flattened index
        Type *T = x.getAggregateOperand()->getType(); int base = 0;
        for (unsigned ix : x.indices()) { if (auto *st = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; k++) { std::vector<std::pair<u64, unsigned>> fl; flatten(st->getElementType(k), fl); base += fl.size(); } T = st->getElementType(ix); } else { auto *at = cast<ArrayType>(T); std::vector<std::pair<u64, unsigned>> fl; flatten(at->getElementType(), fl); base += fl.size() * ix; T = at->getElementType(); } }
        in.op = X_MULTIMOVE; for (int k = 0; k < in.nd; k++) in.args.push_back(src[base + k]); break; }
      case Instruction::InsertValue: { auto &x = cast<InsertValueInst>(I); std::vector<Opn> src, el; aggOps(x.getAggregateOperand(), src); aggOps(x.getInsertedValueOperand(), el);
        Type *T = x.getType(); int base = 0;
        for (unsigned ix : x.indices()) { if (auto *st = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; k++) { std::vector<std::pair<u64, unsigned>> fl; flatten(st->getElementType(k), fl); base += fl.size(); } T = st->getElementType(ix); } else { auto *at = cast<ArrayType>(T); std::vector<std::pair<u64, unsigned>> fl; flatten(at->getElementType(), fl); base += fl.size() * ix; T = at->getElementType(); } }
        for (size_t k = 0; k < el.size(); k++) src[base + k] = el[k];
        in.op = X_MULTIMOVE; in.args = src; break; }
      case Instruction::Ret: in.op = X_RET; if (I.getNumOperands()) aggOps(I.getOperand(0), in.args); break;
      case Instruction::Br: { auto &br = cast<BranchInst>(I); if (br.isConditional()) { in.op = X_CBR; in.a = op(br.getCondition()); in.t = bid[br.getSuccessor(0)]; in.f = bid[br.getSuccessor(1)]; } else { in.op = X_BR; in.t = bid[br.getSuccessor(0)]; } break; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); in.op = X_SWITCH; in.a = op(sw.getCondition()); in.w2 = intW(sw.getCondition()->getType()); in.f = bid[sw.getDefaultDest()]; for (auto &c : sw.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bid[c.getCaseSuccessor()]}); break; }
      case Instruction::Unreachable: in.op = X_UNREACH; break;
      case Instruction::Call: {
        auto &cb = cast<CallInst>(I); in.op = X_CALL;
        Value *cal = cb.getCalledOperand()->stripPointerCasts();
        if (cb.isInlineAsm()) { in.op = X_UNSUP; break; }
        if (auto *cf = dyn_cast<Function>(cal)) { in.callee = finfo[cf]; } else if (auto *ga = dyn_cast<GlobalAlias>(cal)) { in.callee = finfo[cast<Function>(ga->getAliaseeObject())]; } else in.a = op(cb.getCalledOperand());
        in.vararg = cb.getFunctionType()->isVarArg(); in.nfixed = cb.getFunctionType()->getNumParams();
        for (unsigned k = 0; k < cb.arg_size(); k++) {
          Value *av = cb.getArgOperand(k);
          if (isa<MetadataAsValue>(av)) { in.args.push_back(Opn()); in.argw.push_back(64); continue; }
          in.args.push_back(op(av)); in.argw.push_back(intW(av->getType()));
          if (cb.isByValArgument(k)) in.parts.push_back({(int)k, (unsigned)DL->getTypeAllocSize(cb.getParamByValType(k)), Opn()});
        }
        break; }
      default: break;
      }
      fi->insBB.push_back(bb.id); fi->ins.push_back(std::move(in));
    }
  }
}
// ------------------------------------------------------------------ objects
static Obj *findObj(State &s, u64 a) {
  auto &v = s.objs; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; Obj *o = v[lo - 1];
  if (a < o->addr + o->size || (a == o->addr && o->size == 0)) return o;
  return nullptr;
}
static Obj *nearObj(State &s, u64 a) { // for diagnostics: object just below
  auto &v = s.objs; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= a) lo = m + 1; else hi = m; } return lo ? v[lo - 1] : nullptr; }
static Obj *writable(State &s, Obj *o) {
  if (o->rc == 1) return o;
  Obj *n = new Obj(*o); n->rc = 1; auto &v = s.objs; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= o->addr) lo = m + 1; else hi = m; }
  v[lo - 1] = n; ounref(o); return n;
}
static Obj *newObj(State &s, u64 size, uint8_t fill) {
  Obj *o = new Obj(); u64 a = (s.nextAddr + 4095) & ~4095ull; o->addr = a; o->size = size; o->b.assign(size, fill); s.nextAddr = a + size + (1 << 20); s.objs.push_back(o); return o; }
static bool removeObj(State &s, u64 addr) {
  auto &v = s.objs; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= addr) lo = m + 1; else hi = m; }
  if (!lo || v[lo - 1]->addr != addr) return false; ounref(v[lo - 1]); v.erase(v.begin() + lo - 1); return true; }
static Val readO(Obj *o, u64 off, unsigned bits) {
  unsigned n = (bits + 7) / 8; const uint8_t *p = &o->b[off];
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)p[i] << (8 * i); return cv(v & maskw(bits)); }
  Expr *r = nullptr;
  for (int i = (int)n - 1; i >= 0; i--) { Expr *b = o->s[off + i] ? o->s[off + i] : mkConst(p[i], 8); r = r ? mkConcat(r, b) : b; }
  if (r->w > bits) r = mkExtract(r, 0, bits);
  if (r->kind == K_EXTRACT) r = mkExtract(r->a, r->val, r->w);
  else if (r->kind == K_ZEXT && r->a->kind == K_EXTRACT) r = mkZExt(mkExtract(r->a->a, r->a->val, r->a->w), r->w);
  return ev(r);
}
static void writeO(Obj *o, u64 off, const Val &v, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (!v.e) { for (unsigned i = 0; i < n; i++) { o->b[off + i] = (uint8_t)(v.v >> (8 * i)); } if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Expr *e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Expr *b = n == 1 ? e : mkByte(e, 8 * i); if (b->isConst()) { o->b[off + i] = b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
// ------------------------------------------------------------------ forking helpers
static State *cur;
static void pushFork(State *n) { nForks++; work.push_back(n); if (work.size() > g_maxStates) { } }
// Decide a 1-bit condition on the current state; forks if both feasible. Returns 1/0, or -1 if state dead.
static int branch(State &s, Expr *c) {
  if (c->isConst()) return c->val;
  if (s.pcset.count(c)) return 1;
  Expr *nc = mkNot1(c);
  if (s.pcset.count(nc)) return 0;
  bool v = evalM(c, s.model.get());
  ModelP other; Res r = checkSat(s.pc, v ? nc : c, s.model, other);
  if (r == R_UNKNOWN) nIncomplete++;
  if (r == R_SAT) {
    State *n = new State(s); n->forks++; n->add(v ? nc : c); n->model = other;
    // the forked state re-executes the current instruction; its condition is now in its pc
    bool swap = g_search == 1 && (rnd() & 1);
    pushFork(n); (void)swap;
    s.add(v ? c : nc); s.forks++;
  } else if (r == R_UNKNOWN) s.add(v ? c : nc);
  return v;
}
// must the condition hold? (no forking)  1 yes, 0 no (model in m), 2 unknown
static int mustHold(State &s, Expr *c, ModelP &m) {
  if (c->isConst()) { if (c->val) return 1; m = s.model; return 0; }
  if (s.pcset.count(c)) return 1;
  Res r = checkSat(s.pc, mkNot1(c), s.model, m);
  return r == R_UNSAT ? 1 : r == R_SAT ? 0 : 2;
}
// Concretise: picks model value, forks remaining values. Instruction must be restartable.
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.v;
  u64 x = evalM(v.e, s.model.get()); Expr *eq = mkBin(K_EQ, v.e, mkConst(x, w));
  branch(s, eq); // model satisfies eq, so current state takes eq
  return x;
}
static bool isAssumed(State &s, Expr *e) { return s.pcset.count(e); }

// Resolve a (possibly symbolic) address for n bytes. Returns object and offset value; O_DEAD on error.
struct Loc { Obj *o; Val off; };
static bool checkSym(State &s, Obj *o, Val off, u64 n, const char *what) { // symbolic-size object bound
  if (!o->symSize) return true;
  nMemChk++;
  Expr *c = mkBin(K_ULE, mkBin(K_ADD, toE(off, 64), mkConst(n, 64)), o->symSize); ModelP m;
  int r = mustHold(s, c, m);
  if (r == 1) return true;
  if (r == 2) { nIncomplete++; s.add(c); return true; }
  report(s, m, "memory", std::string("out-of-bounds ") + what);
  // continue within bounds if possible
  ModelP m2; if (checkSat(s.pc, c, s.model, m2) == R_SAT) { s.add(c); s.model = m2; return true; }
  return false;
}
static Out resolve(State &s, Val a, u64 n, bool write, Loc &L) {
  const char *what = write ? "write" : "read";
  if (!a.e) {
    Obj *o = findObj(s, a.v);
    if (!o || a.v + n > o->addr + o->size) {
      if (n == 0) { L.o = nullptr; return O_NEXT; }
      Obj *nb = nearObj(s, a.v); std::string d = std::string("out-of-bounds or invalid ") + what; if (a.v < 4096) d = std::string("null-pointer ") + what; (void)nb;
      report(s, s.model, "memory", d); return O_DEAD; }
    if (write && o->ro) { report(s, s.model, "memory", "write to read-only memory"); return O_DEAD; }
    L.o = o; L.off = cv(a.v - o->addr); if (!checkSym(s, o, L.off, n, what)) return O_DEAD; return O_NEXT;
  }
  u64 v = evalM(a.e, s.model.get()); Obj *o = findObj(s, v);
  if (!o || v + n > o->addr + o->size) {
    std::string d = std::string(v < 4096 ? "null-pointer " : "out-of-bounds or invalid ") + what; report(s, s.model, "memory", d);
    // continue with in-bounds behaviour of other objects: exclude this value's region if possible
    Obj *nb = nearObj(s, v); if (nb && nb->size >= n) { // try staying inside the neighbour
      Expr *off = mkBin(K_SUB, a.e, mkConst(nb->addr, 64)); Expr *c = mkBin(K_ULE, off, mkConst(nb->size - n, 64)); ModelP m; if (checkSat(s.pc, c, s.model, m) == R_SAT) { s.add(c); s.model = m; return O_AGAIN; } }
    return O_DEAD; }
  if (write && o->ro) { report(s, s.model, "memory", "write to read-only memory"); return O_DEAD; }
  Expr *off = mkBin(K_SUB, a.e, mkConst(o->addr, 64)); Expr *in = mkBin(K_ULE, off, mkConst(o->size - n, 64));
  if (!in->isConst() && !s.pcset.count(in)) {
    nMemChk++;
    ModelP m; Res r = checkSat(s.pc, mkNot1(in), s.model, m);
    if (r == R_UNKNOWN) { nIncomplete++; s.add(in); }
    if (r == R_SAT) { State *nst = new State(s); nst->add(mkNot1(in)); nst->model = m; pushFork(nst); s.add(in); }
  }
  L.o = o; L.off = ev(off); if (!checkSym(s, o, L.off, n, what)) return O_DEAD;
  return O_NEXT;
}
// candidate offsets of a symbolic offset
static bool candidates(State &s, Expr *off, u64 size, u64 n, std::vector<u64> &out, unsigned limit) {
  u64 lo = off->umin, hi = std::min(off->umax, size - n); unsigned tz = knownTz(off); 
  // base constant shifts alignment: off = c + x
  u64 step = tz >= 16 ? 65536 : (1ull << tz); u64 base = 0;
  if (off->kind == K_ADD && off->b->isConst()) { unsigned t2 = knownTz(off->a); if (t2 > tz) { step = t2 >= 16 ? 65536 : 1ull << t2; base = off->b->val; } }
  // multiplicative stride: off = c + k*x with constant k (recover from first MUL)
  { Expr *x = off; u64 b = 0; if (x->kind == K_ADD && x->b->isConst()) { b = x->b->val; x = x->a; } if (x->kind == K_ZEXT) x = x->a; if (x->kind == K_MUL && x->b->isConst() && x->b->val > step && b <= hi) { u64 top = x->umax; if (top <= size + (1u << 20)) { step = x->b->val; base = b; } } }
  u64 start = lo; if (step > 1) { u64 r = (start - base) % step; if (r) start += step - r; }
  if (hi < start) { out.clear(); return true; }
  if ((hi - start) / step + 1 > limit) {
    // ask the solver to tighten the interval (binary search on max / min)
    return false; }
  for (u64 x = start; x <= hi; x += step) { out.push_back(x); if (x + step < x) break; }
  return true;
}
static Out memRead(State &s, Val addr, const std::vector<std::pair<u64, unsigned>> &fields, Val *dst) {
  u64 tot = 0; for (auto &f : fields) tot = std::max<u64>(tot, f.first + (f.second + 7) / 8);
  Loc L; Out r = resolve(s, addr, tot, false, L); if (r != O_NEXT) return r;
  if (!L.off.e) { for (size_t i = 0; i < fields.size(); i++) dst[i] = readO(L.o, L.off.v + fields[i].first, fields[i].second); return O_NEXT; }
  std::vector<u64> cs; if (!candidates(s, L.off.e, L.o->size, tot, cs, 640)) { u64 v = concretize(s, L.off, 64); for (size_t i = 0; i < fields.size(); i++) dst[i] = readO(L.o, v + fields[i].first, fields[i].second); return O_NEXT; }
  for (size_t i = 0; i < fields.size(); i++) {
    Expr *acc = nullptr; unsigned w = fields[i].second;
    for (int k = (int)cs.size() - 1; k >= 0; k--) { Expr *x = toE(readO(L.o, cs[k] + fields[i].first, w), w); acc = acc ? mkIte(mkBin(K_EQ, L.off.e, mkConst(cs[k], 64)), x, acc) : x; }
    dst[i] = ev(acc ? acc : mkConst(0, w));
  }
  return O_NEXT;
}
static Out memWrite(State &s, Val addr, const std::vector<std::pair<u64, unsigned>> &fields, Val *src) {
  u64 tot = 0; for (auto &f : fields) tot = std::max<u64>(tot, f.first + (f.second + 7) / 8);
  Loc L; Out r = resolve(s, addr, tot, true, L); if (r != O_NEXT) return r;
  u64 conc;
  if (!L.off.e) conc = L.off.v;
  else {
    std::vector<u64> cs;
    if (candidates(s, L.off.e, L.o->size, tot, cs, 48)) {
      Obj *o = writable(s, L.o);
      for (u64 c : cs) { Expr *eq = mkBin(K_EQ, L.off.e, mkConst(c, 64)); if (eq->isConst() && !eq->val) continue;
        for (size_t i = 0; i < fields.size(); i++) { unsigned nb = ((fields[i].second + 7) / 8) * 8; u64 off = c + fields[i].first; Expr *old = toE(readO(o, off, nb), nb); Expr *nw = toE(src[i], fields[i].second); if (nw->w < nb) nw = mkZExt(nw, nb); writeO(o, off, ev(mkIte(eq, nw, old)), nb); } }
      return O_NEXT;
    }
    conc = concretize(s, L.off, 64);
  }
  Obj *o = writable(s, L.o);
  for (size_t i = 0; i < fields.size(); i++) writeO(o, conc + fields[i].first, src[i], fields[i].second);
  return O_NEXT;
}
// ------------------------------------------------------------------ arithmetic
static Val binop(Kind k, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) return cv(constFold(k, w, a.v, b.v));
  return ev(mkBin(k, toE(a, w), toE(b, w)));
}
static Val icmp(int pred, unsigned w, const Val &a, const Val &b) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return binop(K_EQ, w, a, b);
  case CmpInst::ICMP_NE: { Val r = binop(K_EQ, w, a, b); if (!r.e) return cv(!r.v); return ev(mkNot1(r.e)); }
  case CmpInst::ICMP_ULT: return binop(K_ULT, w, a, b); case CmpInst::ICMP_ULE: return binop(K_ULE, w, a, b);
  case CmpInst::ICMP_UGT: return binop(K_ULT, w, b, a); case CmpInst::ICMP_UGE: return binop(K_ULE, w, b, a);
  case CmpInst::ICMP_SLT: return binop(K_SLT, w, a, b); case CmpInst::ICMP_SLE: return binop(K_SLE, w, a, b);
  case CmpInst::ICMP_SGT: return binop(K_SLT, w, b, a); case CmpInst::ICMP_SGE: return binop(K_SLE, w, b, a);
  }
  abort();
}
static inline Val getv(Frame &f, const Opn &o) { return o.reg >= 0 ? f.regs[o.reg] : Val{nullptr, o.c}; }
static double asD(u64 v, unsigned w) { if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
static u64 concApprox(State &s, Val v, unsigned w) { // floating point on symbolic data: enumerate values by forking (bounded), marks path
  if (!v.e) return v.v; return concretize(s, v, w);
}
static void gotoBB(State &s, Frame &f, int target) {
  BB &b = f.f->bbs[target]; b.covered = true;
  auto it = b.in.find(f.curBB);
  if (it != b.in.end()) {
    auto &mv = it->second.moves;
    if (mv.size() == 1) { f.regs[std::get<0>(mv[0])] = getv(f, std::get<1>(mv[0])); }
    else { static std::vector<Val> tmp; tmp.resize(mv.size()); for (size_t i = 0; i < mv.size(); i++) tmp[i] = getv(f, std::get<1>(mv[i])); for (size_t i = 0; i < mv.size(); i++) f.regs[std::get<0>(mv[i])] = tmp[i]; }
  }
  f.curBB = target; f.pc = b.first;
}
static void popFrame(State &s) { Frame &f = s.fr.back(); for (u64 a : f.allocas) removeObj(s, a); if (f.vaBlock) removeObj(s, f.vaBlock); s.fr.pop_back(); }
static bool pushCall(State &s, FuncInfo *fi, const Ins *in, std::vector<Val> &args) {
  prepare(fi); fi->calls++;
  if (s.fr.size() > g_maxDepth) { report(s, s.model, "recursion", "unbounded recursion (call depth limit)"); return false; }
  Frame nf; nf.f = fi; nf.callIns = in; nf.regs.assign(fi->nregs, Val{nullptr, 0}); nf.curBB = 0; nf.pc = 0; fi->bbs[0].covered = true;
  size_t np = fi->F->arg_size();
  for (size_t i = 0; i < np && i < args.size(); i++) nf.regs[i] = args[i];
  s.fr.push_back(std::move(nf));
  if (in) for (auto &pp : in->parts) { // byval copies
    unsigned k = std::get<0>(pp); u64 sz = std::get<1>(pp); Frame &cf = s.fr.back(); Val src = cf.regs[k]; Loc L; if (src.e) { unsup(s, "symbolic byval"); return false; }
    Out r = resolve(s, src, sz, false, L); if (r != O_NEXT) return false; Obj *o = newObj(s, sz, 0); o->stack = true; std::copy(L.o->b.begin() + L.off.v, L.o->b.begin() + L.off.v + sz, o->b.begin()); if (!L.o->s.empty()) { o->s.assign(sz, nullptr); std::copy(L.o->s.begin() + L.off.v, L.o->s.begin() + L.off.v + sz, o->s.begin()); }
    cf.allocas.push_back(o->addr); cf.regs[k] = cv(o->addr); }
  if (fi->F->isVarArg()) { size_t nv = args.size() > np ? args.size() - np : 0; Obj *o = newObj(s, nv * 8 + 8, 0); o->stack = true; for (size_t i = 0; i < nv; i++) { unsigned w = in && in->argw.size() > np + i ? in->argw[np + i] : 64; Val v = args[np + i]; if (v.e && v.e->w < 64) v = ev(mkZExt(v.e, 64)); (void)w; writeO(o, i * 8, v, 64); } s.fr.back().vaBlock = o->addr; }
  return true;
}
// ------------------------------------------------------------------ builtins
typedef int (*BFn)(State &, Ins &, std::vector<Val> &, Val *); // returns Out
static std::string cstr(State &s, Val p) { std::string r; if (p.e) return "<sym>"; Obj *o = findObj(s, p.v); if (!o) return "<bad>"; for (u64 i = p.v - o->addr; i < o->size; i++) { if (!o->s.empty() && o->s[i]) { r += '?'; continue; } if (!o->b[i]) break; r += (char)o->b[i]; } return r; }
static Val newSym(State &s, const std::string &name, unsigned w, u64 umax, u64 lo, unsigned outw) {
  unsigned k = s.symSeq[name]++; std::string nm = name + "#" + std::to_string(k);
  Expr *v = mkVar(nm, w, umax); s.syms.push_back({v, lo, outw, name});
  return ev(mkBin(K_ADD, mkZExt(v, outw), mkConst(lo, outw)));
}
static int b_sym(State &s, Ins &in, std::vector<Val> &a, Val *r) { // u64 vf_sym(const char*name, unsigned bits)
  unsigned bits = a[1].v; Val v = newSym(s, cstr(s, a[0]), bits, maskw(bits), 0, 64); *r = v; return O_NEXT; }
static int b_range(State &s, Ins &in, std::vector<Val> &a, Val *r) { // i64 vf_range(name, lo, hi)
  if (a[1].e || a[2].e) { unsup(s, "symbolic range bounds"); return O_DEAD; }
  i64 lo = a[1].v, hi = a[2].v; u64 d = (u64)hi - (u64)lo; unsigned w = 1; while (w < 64 && d > maskw(w)) w++;
  if (d == 0) { s.symSeq[cstr(s, a[0])]++; s.syms.push_back({mkConst(0, 64), (u64)lo, 64, cstr(s, a[0])}); *r = cv(lo); return O_NEXT; }
  *r = newSym(s, cstr(s, a[0]), w, d, lo, 64); return O_NEXT; }
static int b_symbytes(State &s, Ins &in, std::vector<Val> &a, Val *r) { // void vf_sym_bytes(void*p, size_t n, name)
  if (a[0].e || a[1].e) { unsup(s, "symbolic sym_bytes"); return O_DEAD; }
  u64 n = a[1].v; if (!n) return O_NEXT; Loc L; Out o = resolve(s, a[0], n, true, L); if (o != O_NEXT) return o; Obj *ob = writable(s, L.o); std::string nm = cstr(s, a[2]);
  for (u64 i = 0; i < n; i++) { unsigned k = s.symSeq[nm]++; Expr *v = mkVar(nm + "#" + std::to_string(k), 8, 255); s.syms.push_back({v, 0, 8, nm}); writeO(ob, L.off.v + i, ev(v), 8); }
  return O_NEXT; }
static Expr *cond1(const Val &v, unsigned w) { return mkNot1(mkBin(K_EQ, toE(v, w), mkConst(0, w))); }
static int b_assume(State &s, Ins &in, std::vector<Val> &a, Val *r) {
  if (!a[0].e) { if (a[0].v) return O_NEXT; nKilled++; return O_DEAD; }
  Expr *c = cond1(a[0], in.argw[0]); if (c->isConst()) { if (c->val) return O_NEXT; nKilled++; return O_DEAD; }
  ModelP m; Res q = checkSat(s.pc, c, s.model, m); if (q == R_UNKNOWN) { nIncomplete++; return O_DEAD; } if (q != R_SAT) { nKilled++; return O_DEAD; } s.add(c); s.model = m; return O_NEXT; }
static int b_assert(State &s, Ins &in, std::vector<Val> &a, Val *r) { // vf_assert(int c, const char*msg)
  nAsserts++; s.asserts++;
  if (!a[0].e) { nAssertsConst++; if (a[0].v) return O_NEXT; report(s, s.model, "assert", cstr(s, a[1])); return O_DEAD; }
  Expr *c = cond1(a[0], in.argw[0]); ModelP m; int h = mustHold(s, c, m); if (h == 1) return O_NEXT; if (h == 2) { nIncomplete++; s.add(c); if (!evalM(c, s.model.get())) return O_DEAD; return O_NEXT; }
  report(s, m, "assert", cstr(s, a[1]));
  ModelP m2; if (checkSat(s.pc, c, s.model, m2) != R_SAT) return O_DEAD; s.add(c); s.model = m2; return O_NEXT; }
static int b_reach(State &s, Ins &in, std::vector<Val> &a, Val *r) { reached[cstr(s, a[0])]++; return O_NEXT; }
static int b_log(State &s, Ins &in, std::vector<Val> &a, Val *r) { s.logs.push_back({cstr(s, a[0]), a[1]}); return O_NEXT; }
static int b_case(State &s, Ins &in, std::vector<Val> &a, Val *r) { *r = cv((u64)g_case); return O_NEXT; }
static int b_param(State &s, Ins &in, std::vector<Val> &a, Val *r) { std::string n = cstr(s, a[0]); auto it = g_params.find(n); if (it == g_params.end()) *r = a[1]; else *r = cv((u64)it->second); return O_NEXT; }
static int b_conc(State &s, Ins &in, std::vector<Val> &a, Val *r) { *r = cv(concretize(s, a[0], 64)); return O_NEXT; }
static int b_issym(State &s, Ins &in, std::vector<Val> &a, Val *r) { *r = cv(a[0].e != nullptr); return O_NEXT; }
static int b_stop(State &s, Ins &in, std::vector<Val> &a, Val *r); // path complete
static int b_ite(State &s, Ins &in, std::vector<Val> &a, Val *r) { if (!a[0].e) { *r = a[0].v ? a[1] : a[2]; return O_NEXT; } *r = ev(mkIte(cond1(a[0], in.argw[0]), toE(a[1], 64), toE(a[2], 64))); return O_NEXT; }
static int b_print(State &s, Ins &in, std::vector<Val> &a, Val *r) { if (g_verbose) { fprintf(stderr, "[%s] ", cstr(s, a[0]).c_str()); if (a[1].e) fprintf(stderr, "%s (=%llu)\n", exprStr(a[1].e, 8).c_str(), (unsigned long long)evalM(a[1].e, s.model.get())); else fprintf(stderr, "%lld\n", (long long)a[1].v); } return O_NEXT; }
static int b_abort(State &s, Ins &in, std::vector<Val> &a, Val *r) { report(s, s.model, "abort", "abort() called"); return O_DEAD; }
static int b_malloc_(State &s, Val n, uint8_t fill, Val *r) {
  if (!n.e) { if (n.v > (1ull << 30)) { *r = cv(0); return O_NEXT; } Obj *o = newObj(s, n.v, fill); o->heap = true; *r = cv(o->addr); return O_NEXT; }
  // symbolic size: small enumerations fork, otherwise symbolic-size object
  u64 hi = n.e->umax; 
  if (hi > (1ull << 22)) { // ask solver: can it exceed 4 MiB? split
    Expr *big = mkBin(K_ULT, mkConst(1ull << 22, 64), n.e); int b = branch(s, big); if (b < 0) return O_DEAD; if (b) { u64 x = concretize(s, n, 64); if (x > (1ull << 30)) { *r = cv(0); return O_NEXT; } Obj *o = newObj(s, x, fill); o->heap = true; *r = cv(o->addr); return O_NEXT; } hi = 1ull << 22; }
  if (hi > 65536) { // tighten by binary search
    u64 lo = evalM(n.e, s.model.get()); while (lo < hi && hi > 4096) { u64 mid = lo + (hi - lo) / 2; ModelP m; Res q = checkSat(s.pc, mkBin(K_ULT, mkConst(mid, 64), n.e), s.model, m); if (q == R_UNSAT) hi = mid; else if (q == R_SAT) lo = std::max(mid + 1, evalM(n.e, m.get())); else break; } }
  Obj *o = newObj(s, hi, fill); o->heap = true; o->symSize = n.e; *r = cv(o->addr); return O_NEXT; }
static int b_malloc(State &s, Ins &in, std::vector<Val> &a, Val *r) { return b_malloc_(s, a[0], 0xA5, r); }
static int b_calloc(State &s, Ins &in, std::vector<Val> &a, Val *r) { return b_malloc_(s, binop(K_MUL, 64, a[0], a[1]), 0, r); }
static int b_free(State &s, Ins &in, std::vector<Val> &a, Val *r) {
  u64 p = concretize(s, a[0], 64); if (!p) return O_NEXT; Obj *o = findObj(s, p);
  if (!o || o->addr != p || !o->heap) { report(s, s.model, "memory", "invalid or double free"); return O_DEAD; }
  removeObj(s, p); return O_NEXT; }
static int b_realloc(State &s, Ins &in, std::vector<Val> &a, Val *r) {
  u64 p = concretize(s, a[0], 64); u64 n = concretize(s, a[1], 64);
  if (!p) return b_malloc_(s, cv(n), 0xA5, r);
  Obj *o = findObj(s, p); if (!o || o->addr != p || !o->heap) { report(s, s.model, "memory", "invalid realloc"); return O_DEAD; }
  Obj *q = newObj(s, n, 0xA5); q->heap = true; u64 c = std::min(n, o->size); std::copy(o->b.begin(), o->b.begin() + c, q->b.begin()); if (!o->s.empty()) { q->s.assign(n, nullptr); std::copy(o->s.begin(), o->s.begin() + c, q->s.begin()); }
  u64 qa = q->addr; removeObj(s, p); *r = cv(qa); return O_NEXT; }
static int b_memcpy(State &s, Ins &in, std::vector<Val> &a, Val *r) {
  if (r) *r = a[0];
  u64 n;
  if (a[2].e) { n = concretize(s, a[2], 64); } else n = a[2].v;
  if (!n) return O_NEXT;
  if (n > (1ull << 32)) { report(s, s.model, "memory", "huge memory copy"); return O_DEAD; }
  Val d = a[0], c = a[1];
  auto fix = [&](Val &x, bool wr) -> Out { // get concrete address with bounds proof
    Loc L; Out o = resolve(s, x, n, wr, L); if (o != O_NEXT) return o; u64 off = L.off.e ? concretize(s, L.off, 64) : L.off.v; x = cv(L.o->addr + off); return O_NEXT; };
  // symbolic source address, modest size: ITE read
  Out o = fix(d, true); if (o != O_NEXT) return o;
  Loc SL; o = resolve(s, c, n, false, SL); if (o != O_NEXT) return o;
  std::vector<u64> cs;
  if (SL.off.e && n <= 512 && candidates(s, SL.off.e, SL.o->size, n, cs, 160)) {
    std::vector<Val> tmp(n);
    for (u64 i = 0; i < n; i++) { Expr *acc = nullptr; for (int k = (int)cs.size() - 1; k >= 0; k--) { Expr *x = toE(readO(SL.o, cs[k] + i, 8), 8); acc = acc ? mkIte(mkBin(K_EQ, SL.off.e, mkConst(cs[k], 64)), x, acc) : x; } tmp[i] = ev(acc ? acc : mkConst(0, 8)); }
    Obj *dst = writable(s, findObj(s, d.v)); for (u64 i = 0; i < n; i++) writeO(dst, d.v - dst->addr + i, tmp[i], 8);
    return O_NEXT;
  }
  u64 so = SL.off.e ? concretize(s, SL.off, 64) : SL.off.v; Obj *src = SL.o; Obj *dst = findObj(s, d.v); bool same = dst == src; dst = writable(s, dst); if (same) src = dst;
  u64 dofs = d.v - dst->addr; memmove(&dst->b[dofs], &src->b[so], n);
  if (!src->s.empty() || !dst->s.empty()) { if (dst->s.empty()) { bool any = false; for (u64 i = 0; i < n; i++) if (src->s[so + i]) { any = true; break; } if (!any) return O_NEXT; dst->s.assign(dst->size, nullptr); } if (src->s.empty()) std::fill(dst->s.begin() + dofs, dst->s.begin() + dofs + n, nullptr); else memmove(&dst->s[dofs], &src->s[so], n * sizeof(Expr *)); }
  return O_NEXT; }
static int b_memset(State &s, Ins &in, std::vector<Val> &a, Val *r) {
  if (r) *r = a[0]; u64 n = concretize(s, a[2], 64); if (!n) return O_NEXT; if (n > (1ull << 32)) { report(s, s.model, "memory", "huge memset"); return O_DEAD; }
  Loc L; Out o = resolve(s, a[0], n, true, L); if (o != O_NEXT) return o; u64 off = L.off.e ? concretize(s, L.off, 64) : L.off.v; Obj *d = writable(s, L.o);
  Val b = a[1]; if (b.e) b = ev(mkExtract(b.e, 0, 8)); else b.v &= 255;
  if (!b.e) { memset(&d->b[off], (int)b.v, n); if (!d->s.empty()) std::fill(d->s.begin() + off, d->s.begin() + off + n, nullptr); } else for (u64 i = 0; i < n; i++) writeO(d, off + i, b, 8);
  return O_NEXT; }
static Expr *lower8(Expr *c) { Expr *isU = mkBin(K_AND, mkBin(K_ULE, mkConst('A', 8), c), mkBin(K_ULE, c, mkConst('Z', 8))); return mkIte(isU, mkBin(K_ADD, c, mkConst(32, 8)), c); }
static int cmpMem(State &s, Val p, Val q, u64 n, bool str, bool ci, Val *r) {
  u64 pa = concretize(s, p, 64), qa = concretize(s, q, 64); 
  // collect per-byte (diff expr) until decided
  std::vector<std::pair<Expr *, Expr *>> cells; Expr *reach = mkConst(1, 1); Obj *po = nullptr, *qo = nullptr;
  if (n == 0) { *r = cv(0); return O_NEXT; }
  for (u64 i = 0; i < n; i++) {
    if (!po || pa + i >= po->addr + po->size) po = findObj(s, pa + i); if (!qo || qa + i >= qo->addr + qo->size) qo = findObj(s, qa + i);
    bool bad = !po || !qo;
    if (!bad && po->symSize) { Expr *c = mkBin(K_ULT, mkConst(pa + i - po->addr, 64), po->symSize); ModelP m; Expr *q2 = mkBin(K_AND, reach, mkNot1(c)); if (checkSat(s.pc, q2, s.model, m) == R_SAT) { report(s, m, "memory", "out-of-bounds read in comparison"); } }
    if (!bad && qo->symSize) { Expr *c = mkBin(K_ULT, mkConst(qa + i - qo->addr, 64), qo->symSize); ModelP m; Expr *q2 = mkBin(K_AND, reach, mkNot1(c)); if (checkSat(s.pc, q2, s.model, m) == R_SAT) { report(s, m, "memory", "out-of-bounds read in comparison"); } }
    if (bad) { ModelP m; Res q3 = checkSat(s.pc, reach, s.model, m); if (q3 == R_UNKNOWN) nIncomplete++; if (q3 == R_SAT) { report(s, m, "memory", "out-of-bounds read in comparison"); ModelP m2; Expr *nr = mkNot1(reach); if (checkSat(s.pc, nr, s.model, m2) == R_SAT) { s.add(nr); s.model = m2; } else return O_DEAD; } break; }
    Expr *x = toE(readO(po, pa + i - po->addr, 8), 8), *y = toE(readO(qo, qa + i - qo->addr, 8), 8); if (ci) { x = lower8(x); y = lower8(y); }
    cells.push_back({x, y}); Expr *cont = mkBin(K_EQ, x, y); if (str) cont = mkBin(K_AND, cont, mkNot1(mkBin(K_EQ, x, mkConst(0, 8)))); 
    reach = mkBin(K_AND, reach, cont); if (reach->isConst() && !reach->val) break; }
  Expr *acc = mkConst(0, 32);
  for (int i = (int)cells.size() - 1; i >= 0; i--) { Expr *x = cells[i].first, *y = cells[i].second; Expr *d = mkBin(K_SUB, mkZExt(x, 32), mkZExt(y, 32)); Expr *ne = mkNot1(mkBin(K_EQ, x, y)); Expr *rest = acc; if (str) rest = mkIte(mkBin(K_EQ, x, mkConst(0, 8)), mkConst(0, 32), acc); acc = mkIte(ne, d, rest); }
  *r = ev(acc); return O_NEXT; }
static int b_memcmp(State &s, Ins &in, std::vector<Val> &a, Val *r) { u64 n = concretize(s, a[2], 64); return cmpMem(s, a[0], a[1], n, false, false, r); }
static int b_strcmp(State &s, Ins &in, std::vector<Val> &a, Val *r) { return cmpMem(s, a[0], a[1], 1 << 20, true, false, r); }
static int b_strncmp(State &s, Ins &in, std::vector<Val> &a, Val *r) { u64 n = concretize(s, a[2], 64); return cmpMem(s, a[0], a[1], n, true, false, r); }
static int b_strcasecmp(State &s, Ins &in, std::vector<Val> &a, Val *r) { return cmpMem(s, a[0], a[1], 1 << 20, true, true, r); }
static int b_strncasecmp(State &s, Ins &in, std::vector<Val> &a, Val *r) { u64 n = concretize(s, a[2], 64); return cmpMem(s, a[0], a[1], n, true, true, r); }
static int b_ret0(State &s, Ins &in, std::vector<Val> &a, Val *r) { *r = cv(0); return O_NEXT; }
static int b_heapbytes(State &s, Ins &in, std::vector<Val> &a, Val *r) { u64 n = 0; for (Obj *o : s.objs) if (o->heap) n += o->size; *r = cv(n); return O_NEXT; }
static int b_objsize(State &s, Ins &in, std::vector<Val> &a, Val *r) { u64 p = concretize(s, a[0], 64); Obj *o = findObj(s, p); *r = cv(o ? o->addr + o->size - p : 0); return O_NEXT; }

static std::map<std::string, BFn> builtins = {
  {"vf_sym", b_sym}, {"vf_range", b_range}, {"vf_sym_bytes", b_symbytes}, {"vf_assume", b_assume}, {"vf_assert_", b_assert}, {"vf_reach", b_reach}, {"vf_log", b_log}, {"vf_case", b_case}, {"vf_param", b_param}, {"vf_concretize", b_conc}, {"vf_is_symbolic", b_issym}, {"vf_stop", b_stop}, {"vf_ite", b_ite}, {"vf_print", b_print}, {"vf_objsize", b_objsize}, {"vf_heap_bytes", b_heapbytes},
  {"abort", b_abort}, {"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free}, {"realloc", b_realloc}, {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"strcmp", b_strcmp}, {"strncmp", b_strncmp}, {"strcasecmp", b_strcasecmp}, {"strncasecmp", b_strncasecmp}, {"_exit", b_stop}, {"exit", b_stop} };

static void completePath(State &s) {
  nComplete++; if (s.approx) nApprox++;
  if (sampleFiles.size() < g_samples || (sampleFiles.size() < 3 * g_samples && (nComplete & (nComplete - 1)) == 0)) { std::string fn = g_dir + "/path-" + std::to_string(sampleFiles.size()) + ".txt"; writeReplay(fn, s, s.model.get(), "complete path"); sampleFiles.push_back(fn); }
}
static int b_stop(State &s, Ins &in, std::vector<Val> &a, Val *r) { completePath(s); return O_DEAD; }

static Out intrinsic(State &s, Frame &f, Ins &in, Function *F, std::vector<Val> &a, Val *dst) {
  unsigned w = in.w;
  switch (F->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return (Out)b_memcpy(s, in, a, nullptr);
  case Intrinsic::memset: case Intrinsic::memset_inline: return (Out)b_memset(s, in, a, nullptr);
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return O_NEXT;
  case Intrinsic::stacksave: *dst = cv(0); return O_NEXT;
  case Intrinsic::expect: *dst = a[0]; return O_NEXT;
  case Intrinsic::is_constant: *dst = cv(0); return O_NEXT;
  case Intrinsic::objectsize: *dst = cv(maskw(w)); return O_NEXT;
  case Intrinsic::bswap: *dst = a[0].e ? ev(mkBswap(a[0].e)) : cv(mkBswap(mkConst(a[0].v, w))->val); return O_NEXT;
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { bool sg = F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::smin, mx = F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::umax; Val c = binop(sg ? K_SLT : K_ULT, w, a[0], a[1]); Val x = mx ? a[1] : a[0], y = mx ? a[0] : a[1]; *dst = !c.e ? (c.v ? x : y) : ev(mkIte(c.e, toE(x, w), toE(y, w))); return O_NEXT; }
  case Intrinsic::abs: { if (!a[0].e) { i64 v = sext(a[0].v, w); *dst = cv((u64)(v < 0 ? 0 - (u64)v : v) & maskw(w)); } else { Expr *z = mkConst(0, w); *dst = ev(mkIte(mkBin(K_SLT, a[0].e, z), mkBin(K_SUB, z, a[0].e), a[0].e)); } return O_NEXT; }
  case Intrinsic::fshl: case Intrinsic::fshr: { if (a[2].e) { unsup(s, "fsh symbolic"); return O_DEAD; } unsigned k = a[2].v % w; bool l = F->getIntrinsicID() == Intrinsic::fshl; if (!l) k = (w - k) % w; if (k == 0) { *dst = l ? a[0] : a[1]; return O_NEXT; } Expr *x = toE(a[0], w), *y = toE(a[1], w); *dst = ev(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))); return O_NEXT; }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
    if (!a[0].e) { u64 v = a[0].v; u64 r; if (F->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (!v) r = w; else if (F->getIntrinsicID() == Intrinsic::ctlz) r = __builtin_clzll(v) - (64 - w); else r = __builtin_ctzll(v); *dst = cv(r); return O_NEXT; }
    Expr *x = a[0].e; Expr *acc = mkConst(F->getIntrinsicID() == Intrinsic::ctpop ? 0 : w, w);
    if (F->getIntrinsicID() == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) acc = mkBin(K_ADD, acc, mkZExt(mkExtract(x, i, 1), w));
    else if (F->getIntrinsicID() == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) acc = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), acc);
    else for (int i = w - 1; i >= 0; i--) acc = mkIte(mkExtract(x, i, 1), mkConst(i, w), acc);
    *dst = ev(acc); return O_NEXT; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ow = in.argw[0]; Expr *x = toE(a[0], ow), *y = toE(a[1], ow); auto id = F->getIntrinsicID();
    Expr *r, *o;
    switch (id) {
    case Intrinsic::uadd_with_overflow: r = mkBin(K_ADD, x, y); o = mkBin(K_ULT, r, x); break;
    case Intrinsic::usub_with_overflow: r = mkBin(K_SUB, x, y); o = mkBin(K_ULT, x, y); break;
    case Intrinsic::sadd_with_overflow: { r = mkBin(K_ADD, x, y); Expr *z = mkConst(0, ow); o = mkBin(K_XOR, mkBin(K_SLT, y, z), mkBin(K_SLT, r, x)); break; }
    case Intrinsic::ssub_with_overflow: { r = mkBin(K_SUB, x, y); Expr *z = mkConst(0, ow); o = mkBin(K_XOR, mkBin(K_SLT, z, y), mkBin(K_SLT, r, x)); break; }
    case Intrinsic::umul_with_overflow: { r = mkBin(K_MUL, x, y); if ((u128)x->umax * y->umax <= maskw(ow)) o = mkConst(0, 1); else if (y->isConst() && y->val) o = mkBin(K_ULT, mkConst(maskw(ow) / y->val, ow), x); else { Expr *z = mkConst(0, ow); o = mkBin(K_AND, mkNot1(mkBin(K_EQ, y, z)), mkNot1(mkBin(K_EQ, mkBin(K_UDIV, r, mkIte(mkBin(K_EQ, y, z), mkConst(1, ow), y)), x))); } break; }
    default: { r = mkBin(K_MUL, x, y); i128 p[4] = {(i128)x->smin * y->smin, (i128)x->smin * y->smax, (i128)x->smax * y->smin, (i128)x->smax * y->smax}; i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (lo >= -((i128)1 << (ow - 1)) && hi <= (i128)(maskw(ow) >> 1)) o = mkConst(0, 1); else if (ow <= 32) { Expr *q = mkBin(K_MUL, mkSExt(x, 64), mkSExt(y, 64)); o = mkNot1(mkBin(K_EQ, q, mkSExt(r, 64))); } else if (y->isConst() && (i64)y->val > 0) { i64 c = y->val; o = mkBin(K_OR, mkBin(K_SLT, mkConst(INT64_MAX / c, 64), x), mkBin(K_SLT, x, mkConst(INT64_MIN / c, 64))); } else { unsup(s, "smul overflow"); return O_DEAD; } }
    }
    dst[0] = ev(r); dst[1] = ev(o); return O_NEXT; }
  case Intrinsic::usub_sat: { Val c = binop(K_ULT, w, a[0], a[1]); Val d = binop(K_SUB, w, a[0], a[1]); *dst = !c.e ? (c.v ? cv(0) : d) : ev(mkIte(c.e, mkConst(0, w), toE(d, w))); return O_NEXT; }
  case Intrinsic::uadd_sat: { Val d = binop(K_ADD, w, a[0], a[1]); Val c = binop(K_ULT, w, d, a[0]); *dst = !c.e ? (c.v ? cv(maskw(w)) : d) : ev(mkIte(c.e, mkConst(maskw(w), w), toE(d, w))); return O_NEXT; }
  case Intrinsic::vastart: { u64 va = s.fr.back().vaBlock; u64 p = concretize(s, a[0], 64); std::vector<std::pair<u64, unsigned>> fl = {{0, 32}, {4, 32}, {8, 64}, {16, 64}}; Val src[4] = {cv(48), cv(304), cv(va), cv(0)}; return memWrite(s, cv(p), fl, src); }
  case Intrinsic::vacopy: { std::vector<Val> b = {a[0], a[1], cv(24)}; return (Out)b_memcpy(s, in, b, nullptr); }
  case Intrinsic::vaend: return O_NEXT;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: report(s, s.model, "trap", "trap"); return O_DEAD;
  case Intrinsic::fabs: *dst = cv(fromD(std::fabs(asD(concApprox(s, a[0], w), w)), w)); return O_NEXT;
  case Intrinsic::floor: *dst = cv(fromD(std::floor(asD(concApprox(s, a[0], w), w)), w)); return O_NEXT;
  case Intrinsic::ceil: *dst = cv(fromD(std::ceil(asD(concApprox(s, a[0], w), w)), w)); return O_NEXT;
  case Intrinsic::rint: case Intrinsic::nearbyint: *dst = cv(fromD(std::nearbyint(asD(concApprox(s, a[0], w), w)), w)); return O_NEXT;
  case Intrinsic::fmuladd: { double x = asD(concApprox(s, a[0], w), w), y = asD(concApprox(s, a[1], w), w), z = asD(concApprox(s, a[2], w), w); *dst = cv(fromD(x * y + z, w)); return O_NEXT; }
  default: unsup(s, "intrinsic " + F->getName().str()); return O_DEAD;
  }
}
static std::string curWhy;
static Out doCall(State &s, Ins &in) {
  Frame &f = s.fr.back(); FuncInfo *cal = in.callee;
  std::vector<Val> args; args.reserve(in.args.size());
  for (auto &o : in.args) args.push_back(getv(f, o));
  if (!cal) {
    Val t = getv(f, in.a); u64 v = concretize(s, t, 64); auto it = faddr.find(v);
    if (it == faddr.end()) { report(s, s.model, "memory", v < 4096 ? "call through null pointer" : "call through invalid pointer"); return O_DEAD; }
    cal = it->second;
  }
  if (cal->F->isIntrinsic()) { Val tmp[4] = {}; Out o = intrinsic(s, f, in, cal->F, args, tmp); if (o == O_NEXT && in.dst >= 0) { Frame &f2 = s.fr.back(); for (int k = 0; k < in.nd; k++) f2.regs[in.dst + k] = tmp[k]; } return o; }
  auto bi = builtins.find(cal->name);
  if (cal->hasBuiltin || bi != builtins.end()) {
    cal->calls++; Val tmp[2] = {}; Out o = (Out)bi->second(s, in, args, tmp); if (o == O_NEXT && in.dst >= 0) s.fr.back().regs[in.dst] = tmp[0]; return o; }
  if (cal->F->isDeclaration()) { unsup(s, "external function " + cal->name); return O_DEAD; }
  if (!pushCall(s, cal, &in, args)) return O_DEAD;
  return O_JUMPED;
}
static bool fcmpP(int p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b; case CmpInst::FCMP_OGE: return !un && a >= b; case CmpInst::FCMP_OLT: return !un && a < b; case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b; default: return true; } }

static Out step(State &s) {
  Frame &f = s.fr.back(); Ins &in = f.f->ins[f.pc];
  switch (in.op) {
  case X_BIN: {
    Val a = getv(f, in.a), b = getv(f, in.b); Kind k = (Kind)in.pred;
    if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
      if (!b.e && b.v == 0) { report(s, s.model, "divzero", "division by zero"); return O_DEAD; }
      if (b.e) { Expr *nz = mkNot1(mkBin(K_EQ, b.e, mkConst(0, in.w))); ModelP m; int h = mustHold(s, nz, m); if (h == 2) nIncomplete++; if (h == 0) { report(s, m, "divzero", "division by zero"); ModelP m2; if (checkSat(s.pc, nz, s.model, m2) != R_SAT) return O_DEAD; s.add(nz); s.model = m2; } }
      if ((k == K_SDIV || k == K_SREM) && (in.w == 32 || in.w == 64)) { u64 mn = 1ull << (in.w - 1);
        if (!a.e && !b.e) { if (a.v == mn && b.v == maskw(in.w)) { report(s, s.model, "divzero", "signed division overflow"); return O_DEAD; } }
        else { Expr *bad = mkBin(K_AND, mkBin(K_EQ, toE(a, in.w), mkConst(mn, in.w)), mkBin(K_EQ, toE(b, in.w), mkConst(maskw(in.w), in.w))); if (!(bad->isConst() && !bad->val)) { ModelP m; int h = mustHold(s, mkNot1(bad), m); if (h == 0) { report(s, m, "divzero", "signed division overflow"); ModelP m2; if (checkSat(s.pc, mkNot1(bad), s.model, m2) != R_SAT) return O_DEAD; s.add(mkNot1(bad)); s.model = m2; } } } }
    }
    f.regs[in.dst] = binop(k, in.w, a, b); return O_NEXT; }
  case X_ICMP: f.regs[in.dst] = icmp(in.pred, in.w2, getv(f, in.a), getv(f, in.b)); return O_NEXT;
  case X_FBIN: { Val va = getv(f, in.a), vb = getv(f, in.b);
    if ((va.e || vb.e) && in.w == 64 && in.pred != Instruction::FRem) { Kind k = in.pred == Instruction::FAdd ? K_FADD : in.pred == Instruction::FSub ? K_FSUB : in.pred == Instruction::FMul ? K_FMUL : K_FDIV; f.regs[in.dst] = ev(mkFP(k, toE(va, 64), toE(vb, 64))); return O_NEXT; }
    double a = asD(concApprox(s, va, in.w), in.w), b = asD(concApprox(s, vb, in.w), in.w), r; switch (in.pred) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); } if (in.w == 32) r = (float)r; f.regs[in.dst] = cv(fromD(r, in.w)); return O_NEXT; }
  case X_FNEG: { Val va = getv(f, in.a); if (va.e && in.w == 64) { Expr *x = asInt(va.e); f.regs[in.dst] = ev(x ? mkI2D(mkBin(K_SUB, mkConst(0, 64), x)) : mkBin(K_XOR, va.e, mkConst(1ull << 63, 64))); return O_NEXT; }
    f.regs[in.dst] = cv(fromD(-asD(concApprox(s, va, in.w), in.w), in.w)); return O_NEXT; }
  case X_FCMP: { Val va = getv(f, in.a), vb = getv(f, in.b);
    if ((va.e || vb.e) && in.w2 == 64) { Expr *x = toE(va, 64), *y = toE(vb, 64), *r; // symbolic doubles are never NaN here
      switch (in.pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkFP(K_FEQ, x, y); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot1(mkFP(K_FEQ, x, y)); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkFP(K_FLT, y, x); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkFP(K_FLE, y, x); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkFP(K_FLT, x, y); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkFP(K_FLE, x, y); break;
        case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; default: r = mkConst(0, 1); }
      f.regs[in.dst] = ev(r); return O_NEXT; }
    double a = asD(concApprox(s, va, in.w2), in.w2), b = asD(concApprox(s, vb, in.w2), in.w2); f.regs[in.dst] = cv(fcmpP(in.pred, a, b)); return O_NEXT; }
  case X_FCAST: { Val va = getv(f, in.a);
    if (va.e) { if ((in.pred == Instruction::SIToFP || in.pred == Instruction::UIToFP) && in.w == 64) { Expr *x = in.w2 == 64 ? va.e : in.pred == Instruction::SIToFP ? mkSExt(va.e, 64) : mkZExt(va.e, 64); if (in.pred == Instruction::SIToFP || in.w2 < 64 || x->smin >= 0) { f.regs[in.dst] = ev(mkI2D(x)); return O_NEXT; } }
      if (in.pred == Instruction::FPToSI && in.w2 == 64 && in.w == 64) { f.regs[in.dst] = ev(mkD2I(va.e)); return O_NEXT; } }
    u64 v = concApprox(s, va, in.w2); switch (in.pred) { case Instruction::FPToSI: f.regs[in.dst] = cv((u64)(i64)asD(v, in.w2) & maskw(in.w)); break; case Instruction::FPToUI: f.regs[in.dst] = cv((u64)asD(v, in.w2) & maskw(in.w)); break; case Instruction::SIToFP: f.regs[in.dst] = cv(fromD((double)sext(v, in.w2), in.w)); break; case Instruction::UIToFP: f.regs[in.dst] = cv(fromD((double)v, in.w)); break; default: f.regs[in.dst] = cv(fromD(asD(v, in.w2), in.w)); } return O_NEXT; }
  case X_LOAD: { Val tmp[16]; std::vector<Val> big; Val *d = tmp; if (in.fields.size() > 16) { big.resize(in.fields.size()); d = big.data(); } Out o = memRead(s, getv(f, in.a), in.fields, d); if (o != O_NEXT) return o; for (int k = 0; k < in.nd; k++) f.regs[in.dst + k] = d[k]; return O_NEXT; }
  case X_STORE: { std::vector<Val> src; src.reserve(in.args.size()); for (auto &o : in.args) src.push_back(getv(f, o)); return memWrite(s, getv(f, in.b), in.fields, src.data()); }
  case X_ALLOCA: { u64 n = concretize(s, getv(f, in.a), in.w2); u64 sz = in.sz * n; if (sz > (64u << 20)) { report(s, s.model, "memory", "stack overflow: huge alloca"); return O_DEAD; } Obj *o = newObj(s, sz, 0xC3); o->stack = true; Frame &f2 = s.fr.back(); f2.allocas.push_back(o->addr); f2.regs[in.dst] = cv(o->addr); return O_NEXT; }
  case X_GEP: {
    Val p = getv(f, in.a); bool sym = p.e != nullptr; for (auto &g : in.gep) if (g.first.reg >= 0 && f.regs[g.first.reg].e) sym = true;
    if (!sym) { u64 r = p.v + in.goff; for (size_t i = 0; i < in.gep.size(); i++) r += (u64)sext(getv(f, in.gep[i].first).v, in.gepw[i]) * in.gep[i].second; f.regs[in.dst] = cv(r); return O_NEXT; }
    Expr *r = mkBin(K_ADD, toE(p, 64), mkConst(in.goff, 64));
    for (size_t i = 0; i < in.gep.size(); i++) { Expr *x = toE(getv(f, in.gep[i].first), in.gepw[i]); if (x->w < 64) x = mkSExt(x, 64); r = mkBin(K_ADD, r, mkBin(K_MUL, x, mkConst(in.gep[i].second, 64))); }
    f.regs[in.dst] = ev(r); return O_NEXT; }
  case X_TRUNC: { Val a = getv(f, in.a); f.regs[in.dst] = a.e ? ev(mkExtract(a.e, 0, in.w)) : cv(a.v & maskw(in.w)); return O_NEXT; }
  case X_ZEXT: { Val a = getv(f, in.a); f.regs[in.dst] = a.e ? ev(mkZExt(a.e, in.w)) : a; return O_NEXT; }
  case X_SEXT: { Val a = getv(f, in.a); f.regs[in.dst] = a.e ? ev(mkSExt(a.e, in.w)) : cv((u64)sext(a.v, in.w2) & maskw(in.w)); return O_NEXT; }
  case X_MOVE: f.regs[in.dst] = getv(f, in.a); return O_NEXT;
  case X_MULTIMOVE: { std::vector<Val> t; for (auto &o : in.args) t.push_back(getv(f, o)); for (int k = 0; k < in.nd && k < (int)t.size(); k++) f.regs[in.dst + k] = t[k]; return O_NEXT; }
  case X_SELECT: { Val c = getv(f, in.a); size_t n = in.fields.size(); std::vector<Val> t(n); for (size_t k = 0; k < n; k++) { Val x = getv(f, in.args[k]), y = getv(f, in.args[n + k]); if (!c.e) t[k] = c.v ? x : y; else t[k] = ev(mkIte(c.e, toE(x, in.fields[k].second), toE(y, in.fields[k].second))); } for (size_t k = 0; k < n; k++) f.regs[in.dst + k] = t[k]; return O_NEXT; }
  case X_CALL: return doCall(s, in);
  case X_RET: {
    std::vector<Val> rv; for (auto &o : in.args) rv.push_back(getv(f, o)); const Ins *ci = f.callIns; popFrame(s);
    if (s.fr.empty()) { completePath(s); return O_DEAD; }
    Frame &c = s.fr.back(); if (ci && ci->dst >= 0) for (int k = 0; k < ci->nd && k < (int)rv.size(); k++) { Val v = rv[k]; unsigned w = ci->w; if (ci->nd == 1 && w) { if (v.e && v.e->w != w) v = v.e->w > w ? ev(mkExtract(v.e, 0, w)) : ev(mkZExt(v.e, w)); } c.regs[ci->dst + k] = v; }
    c.pc++; return O_JUMPED; }
  case X_BR: gotoBB(s, f, in.t); return O_JUMPED;
  case X_CBR: { Val c = getv(f, in.a); int b; if (!c.e) b = c.v & 1; else { b = branch(s, c.e); if (b < 0) return O_DEAD; } gotoBB(s, s.fr.back(), b ? in.t : in.f); return O_JUMPED; }
  case X_SWITCH: {
    Val c = getv(f, in.a);
    if (!c.e) { int t = in.f; for (auto &k : in.cases) if (k.first == c.v) { t = k.second; break; } gotoBB(s, f, t); return O_JUMPED; }
    std::map<int, Expr *> conds; Expr *none = mkConst(1, 1);
    for (auto &k : in.cases) { Expr *eq = mkBin(K_EQ, c.e, mkConst(k.first, in.w2)); none = mkBin(K_AND, none, mkNot1(eq)); if (k.second == in.f) continue; auto it = conds.find(k.second); if (it == conds.end()) conds[k.second] = eq; else it->second = mkBin(K_OR, it->second, eq); }
    // default also covers cases that go to the default block
    for (auto &k : in.cases) if (k.second == in.f) { none = mkConst(1, 1); for (auto &kk : conds) none = mkBin(K_AND, none, mkNot1(kk.second)); break; }
    u64 v = evalM(c.e, s.model.get()); int tgt = in.f; for (auto &k : in.cases) if (k.first == v) { tgt = k.second; break; }
    Expr *mine = tgt == in.f ? none : conds[tgt];
    auto tryOther = [&](int t, Expr *cond) { if (t == tgt || (cond->isConst() && !cond->val)) return; ModelP m; Res r = checkSat(s.pc, cond, s.model, m); if (r == R_UNKNOWN) nIncomplete++; if (r == R_SAT) { State *n = new State(s); n->forks++; n->add(cond); n->model = m; gotoBB(*n, n->fr.back(), t); pushFork(n); } };
    if (in.f != tgt) tryOther(in.f, none); for (auto &k : conds) tryOther(k.first, k.second);
    s.add(mine); gotoBB(s, s.fr.back(), tgt); return O_JUMPED; }
  case X_UNREACH: report(s, s.model, "unreachable", "unreachable code executed"); return O_DEAD;
  default: { std::string d; raw_string_ostream os(d); in.I->print(os); unsup(s, "instruction " + os.str()); return O_DEAD; }
  }
}
static size_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); long a, b; if (!f || fscanf(f, "%ld %ld", &a, &b) != 2) { if (f) fclose(f); return 0; } fclose(f); return b * 4096 / 1048576; }
static bool stopped = false; static std::string stopWhy = "exhausted";
static void runAll() {
  u64 ticks = 0;
  while (!work.empty() && !stopped) {
    State *s;
    if (g_search == 2 && work.size() > 1) { size_t i = rnd() % work.size(); std::swap(work[i], work.back()); }
    else if (g_search == 1 && work.size() > 1 && (rnd() % 8) == 0) { size_t i = rnd() % work.size(); std::swap(work[i], work.back()); }
    s = work.back(); work.pop_back();
    while (true) {
      if ((++ticks & 1023) == 0) { if (now() > g_budget) { stopped = true; stopWhy = "time"; } if ((ticks & 0xfffff) == 0 && rssMB() > g_memMB) { stopped = true; stopWhy = "memory"; } if (stopped) { nLimit++; delete s; break; } }
      if (s->steps++ > g_maxSteps) { report(*s, s->model, "nontermination", "no termination within step limit"); delete s; break; }
      nSteps++;
      size_t depth = s->fr.size(); (void)depth; Out o = step(*s);
      if (o == O_NEXT) { s->fr.back().pc++; continue; }
      if (o == O_JUMPED || o == O_AGAIN) continue;
      delete s; break;
    }
    if (viols.size() >= g_maxViol) { stopped = true; stopWhy = "violations"; }
  }
  if (!work.empty() && !stopped) { stopWhy = "states"; }
}
static LLVMContext ctx; static std::unique_ptr<Module> mod;
static std::string bcfile;
static void *mainThread(void *) {
  SMDiagnostic err; mod = parseIRFile(bcfile, err, ctx); if (!mod) { err.print("psym", errs()); exit(3); }
  M = mod.get(); DL = &M->getDataLayout(); solverInit();
  u64 fa = 0x10000;
  for (auto &F : *M) { auto *fi = new FuncInfo(); fi->F = &F; fi->name = F.getName().str(); fi->addr = fa; fa += 16; finfo[&F] = fi; faddr[fi->addr] = fi; if (auto *sp = F.getSubprogram()) { fi->file = sp->getFilename().str(); std::string full = sp->getDirectory().str() + "/" + fi->file; if (fi->file.rfind(g_repo, 0) == 0 || full.find(g_repo) != std::string::npos) fi->isRepo = fi->file.find("/verif/") == std::string::npos; } if (builtins.count(fi->name)) fi->hasBuiltin = true; }
  State *s0 = new State(); s0->nextAddr = 0x100000000ull; s0->model = newModel();
  std::vector<std::pair<GlobalVariable *, Obj *>> gs;
  for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); Obj *o = newObj(*s0, sz, 0); gaddr[&G] = o->addr; gs.push_back({&G, o}); }
  for (auto &p : gs) { if (p.first->hasInitializer()) initGlobal(p.second, 0, p.first->getInitializer()); else if (g_verbose) fprintf(stderr, "psym: external global %s\n", p.first->getName().str().c_str()); if (p.first->isConstant()) p.second->ro = true; }
  Function *mainF = M->getFunction("vf_main"); if (!mainF) { fprintf(stderr, "no vf_main\n"); exit(3); }
  std::vector<Val> noargs; 
  // static constructors
  std::vector<FuncInfo *> ctors; std::vector<std::pair<uint64_t,FuncInfo *>> cp;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) if (auto *cs = dyn_cast<ConstantStruct>(op)) if (auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) cp.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), finfo[cf]});
  std::stable_sort(cp.begin(), cp.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &x : cp) ctors.push_back(x.second);
  // run: main at the bottom, constructors stacked above it
  pushCall(*s0, finfo[mainF], nullptr, noargs); s0->fr.back().pc = 0;
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) { s0->fr.back().pc--; pushCall(*s0, *it, nullptr, noargs); }
  work.push_back(s0); runAll();
  bool exhausted = stopWhy == "exhausted" && nIncomplete == 0 && nUnsup == 0;
  FILE *f = fopen(g_out.c_str(), "w"); if (!f) { perror("out"); exit(3); }
  fprintf(f, "{\"case\":%ld,\"stop\":\"%s\",\"exhausted\":%s,\"paths\":%llu,\"killed\":%llu,\"errors\":%llu,\"forks\":%llu,\"pending\":%zu,\"steps\":%llu,\"asserts\":%llu,\"asserts_const\":%llu,\"memchecks\":%llu,\"unsupported\":%llu,\"inconclusive\":%llu,\n",
    g_case, stopWhy.c_str(), exhausted ? "true" : "false", (unsigned long long)nComplete, (unsigned long long)nKilled, (unsigned long long)nErr, (unsigned long long)nForks, work.size(), (unsigned long long)nSteps, (unsigned long long)nAsserts, (unsigned long long)nAssertsConst, (unsigned long long)nMemChk, (unsigned long long)nUnsup, (unsigned long long)nIncomplete);
  fprintf(f, "\"queries\":%llu,\"z3calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"modelhits\":%llu,\"cachehits\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%zu,\"rss_mb\":%zu,\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3calls, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.cacheHits, g_ss.time, g_ss.maxTime, now(), exprCount(), rssMB());
  fprintf(f, "\"reached\":{"); bool first = true; for (auto &r : reached) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(f, "},\n\"unsup\":{"); first = true; for (auto &r : unsupWhy) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(f, "},\n\"functions\":{"); first = true; for (auto &p : finfo) { auto *fi = p.second; if (fi->calls && fi->isRepo && fi->prepared) { size_t c = 0; for (auto &b : fi->bbs) c += b.covered; fprintf(f, "%s\"%s\":[%llu,%zu,%zu]", first ? "" : ",", jesc(fi->name).c_str(), (unsigned long long)fi->calls, c, fi->bbs.size()); first = false; } }
  fprintf(f, "},\n\"samples\":["); first = true; for (auto &x : sampleFiles) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n\"violations\":["); first = true; for (auto &v : viols) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"func\":\"%s\",\"file\":\"%s\",\"stack\":\"%s\"}", first ? "" : ",\n", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.func).c_str(), jesc(v.file).c_str(), jesc(v.stack).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  if (g_verbose) for (auto &p : finfo) { auto *fi = p.second; if (fi->isRepo && fi->prepared) for (auto &b : fi->bbs) if (!b.covered && getenv("PSYM_UNCOV") && fi->name.find(getenv("PSYM_UNCOV")) != std::string::npos && b.first < (int)fi->ins.size()) fprintf(stderr, "UNCOV %s\n", locOf(fi->ins[b.first], fi).c_str()); }
  fflush(stderr); _exit(0);
}
int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--case") g_case = std::stol(nx()); else if (a == "--param") { std::string k = nx(); g_params[k] = std::stol(nx()); } else if (a == "--time") g_budget = std::stod(nx()); else if (a == "--out") g_out = nx(); else if (a == "--dir") g_dir = nx(); else if (a == "--seed") { g_seed = std::stoul(nx()); rngs ^= g_seed * 0x9E3779B97F4A7C15ull; } else if (a == "--steps") g_maxSteps = std::stoull(nx()); else if (a == "--depth") g_maxDepth = std::stoul(nx()); else if (a == "--timeout") g_timeout_ms = std::stoul(nx()); else if (a == "-v") g_verbose = true; else if (a == "--repo") g_repo = nx(); else if (a == "--search") g_search = std::stoi(nx()); else if (a == "--samples") g_samples = std::stoul(nx()); else if (a == "--maxviol") g_maxViol = std::stoul(nx()); else if (a == "--mem") g_memMB = std::stoul(nx()); else bcfile = a; }
  pthread_attr_t at; pthread_attr_init(&at); size_t ss = 8ull << 30; void *st = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0); if (st == MAP_FAILED) { perror("mmap"); return 3; }
  pthread_attr_setstack(&at, st, ss); pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("pthread"); return 3; } pthread_join(t, nullptr); return 0;
}
