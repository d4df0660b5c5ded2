#include <cerrno>
// vsym: a symbolic executor for LLVM-18 IR with exceptions, heap checking,
// threads (scheduler choices are symbolic inputs) and z3 as decision procedure.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <random>
#include <cmath>
#include <array>
#include <csignal>
#include <sys/resource.h>

using namespace vs;
namespace vs { ExprMgr X; }
static Solver SOL;
typedef uint64_t u64;

struct Unsupported { std::string what; };

// ---------------------------------------------------------------- options
struct Opts {
  std::string file, entry, out;
  double maxTime = 600; u64 maxSteps = 3000000, maxTotalSteps = 0; u64 maxPaths = 100000000;
  unsigned maxDepth = 400; unsigned seed = 1, samples = 4, maxFindings = 4;
  int preempt = 2; bool overflow = false; bool races = true; bool verbose = false; bool shiftCheck = true;
  std::string srcRoot = "/repo/"; std::map<std::string, long> params; double memLimitGB = 6;
  bool uninit = true; unsigned maxConcretize = 300;
  std::vector<std::string> paramList;
} O;

// ---------------------------------------------------------------- values
struct Agg;
struct Val { E e = nullptr; const Agg *g = nullptr; };
struct Agg { std::vector<Val> v; };

enum ObjKind : uint8_t { OkGlobal, OkConst, OkStack, OkNew, OkNewArr, OkMalloc, OkExc, OkTls };
static const char *kindName(ObjKind k) { static const char *n[] = {"global", "constant", "stack", "new", "new[]", "malloc", "exception", "tls"}; return n[k]; }

struct RaceByte { uint8_t wt = 255; uint32_t wc = 0; std::array<uint32_t, 6> r{}; };
struct Obj {
  u64 base, size; ObjKind kind; bool alive = true; uint32_t site = 0;
  std::vector<E> b; // nullptr = uninitialised
  std::vector<RaceByte> race;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo; struct BBInfo; struct IInst;
struct Opnd { bool isReg = false, isUndef = false; int reg = -1; Val c; llvm::Type *ty = nullptr; };

struct IInst {
  const llvm::Instruction *I; unsigned op; int dest = -1; unsigned w = 0; // result width
  std::vector<Opnd> ops; llvm::Type *ty = nullptr;
  int64_t goff = 0; std::vector<std::pair<unsigned, int64_t>> gidx;      // GEP
  const llvm::Function *callee = nullptr; unsigned nargs = 0;
  std::vector<std::pair<BBInfo *, Opnd>> phi; BBInfo *s0 = nullptr, *s1 = nullptr;
  unsigned size = 0; int builtin = -1; bool vol = false; llvm::Intrinsic::ID iid = llvm::Intrinsic::not_intrinsic;
};
struct BBInfo { const llvm::BasicBlock *bb; FnInfo *fn; std::vector<IInst> insts; unsigned nphi = 0; bool seen = false; };
struct FnInfo { const llvm::Function *F; unsigned nregs = 0; std::vector<BBInfo *> bbs; BBInfo *entry = nullptr; std::map<const llvm::BasicBlock *, BBInfo *> m; };

struct Frame {
  FnInfo *fn; std::vector<Val> regs; BBInfo *bb; BBInfo *prev = nullptr; unsigned ip = 0; std::vector<u64> allocas; u64 va = 0; bool special = false;
};
enum TStat : uint8_t { TRun, TBlocked, TDone };
struct Thread {
  std::vector<Frame> st; TStat stat = TRun; u64 key = 0; std::map<u64, u64> tls; std::vector<u64> caught; std::vector<u64> rethrown;
  std::vector<uint32_t> vc; int uncaught = 0; u64 startArg = 0;
};
struct Exc { u64 ti, dtor; int64_t adj; };
struct InputRec { std::string name; std::vector<uint32_t> syms; bool sched = false; };

struct State {
  std::map<u64, ObjP> mem; std::vector<Thread> th; int cur = 0;
  Cons cons; std::vector<u64> model; std::vector<std::bitset<256>> dom; std::vector<bool> multi;
  std::vector<std::shared_ptr<const InputRec>> inputs; std::vector<E> obs;
  u64 nextHeap = 0x200000000ull, nextStack = 0x600000000ull; u64 steps = 0; uint32_t nsym = 0; int preempts = 0;
  std::map<u64, Exc> excs; std::map<u64, std::vector<uint32_t>> hb; unsigned forks = 0; bool skipSched = false; u64 liveAllocs = 0; unsigned conc = 0;
  std::set<const IInst *> uninitReported;
};
typedef std::unique_ptr<State> SP;

struct Kill {};   // path ends silently (assumption false / exit)
struct Retry {};  // instruction is executed again (after a fork)

struct Finding { std::string kind, msg, loc, stack; std::string inputs, obs; u64 count = 1; };

// ---------------------------------------------------------------- engine
struct Engine {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout *DL;
  std::map<const llvm::Function *, std::unique_ptr<FnInfo>> fns; std::map<u64, const llvm::Function *> fnAt; std::map<const llvm::GlobalValue *, u64> gaddr;
  std::map<u64, ObjP> constMem; std::vector<const llvm::GlobalVariable *> tlsVars; std::map<u64, const llvm::GlobalVariable *> tlsByAddr;
  std::vector<SP> work; State *S = nullptr; std::vector<BBInfo *> allBB;
  std::map<std::string, Finding> findings; std::vector<std::string> samples; std::map<std::string, u64> reach; std::vector<std::string> incompletes; std::map<std::string, u64> incCount;
  u64 paths = 0, killed = 0, errPaths = 0, totalSteps = 0, forks = 0, truncated = 0, asserts = 0, assertZ3 = 0, maxFrames = 0, schedPoints = 0; u64 liveObjPeak = 0;
  std::chrono::steady_clock::time_point t0; std::mt19937 rng; bool stop = false; std::string stopReason; u64 branchesSym = 0;
  std::vector<std::string> sites;
  typedef void (Engine::*BFn)(const IInst &, std::vector<Val> &, Val &);
  std::vector<BFn> builtins; std::map<std::string, int> bidx;
  const IInst *curI = nullptr; std::set<std::string> assumptions;

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---- module preparation
  unsigned width(llvm::Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Unsupported{"integer wider than 64 bits"}; return w; }
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
    throw Unsupported{"value type"};
  }
  bool isAgg(llvm::Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
  Val aggOf(std::vector<Val> v) { Agg *a = new Agg{std::move(v)}; Val r; r.g = a; return r; }
  unsigned aggN(llvm::Type *t) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return s->getNumElements(); if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) return a->getNumElements(); if (auto *a = llvm::dyn_cast<llvm::FixedVectorType>(t)) return a->getNumElements(); throw Unsupported{"aggregate"}; }
  llvm::Type *aggT(llvm::Type *t, unsigned i) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return s->getElementType(i); if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) return a->getElementType(); return llvm::cast<llvm::FixedVectorType>(t)->getElementType(); }
  u64 aggOff(llvm::Type *t, unsigned i) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return i * DL->getTypeAllocSize(aggT(t, i)).getFixedValue(); }

  Val fresh(llvm::Type *t) { // undefined value
    if (isAgg(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); ++i) v.push_back(fresh(aggT(t, i))); return aggOf(std::move(v)); }
    unsigned w = width(t); E r = nullptr;
    for (unsigned i = 0; i < w; i += 8) { E s = newSym(true); r = r ? X.concat(s, r) : s; }
    Val v; v.e = X.extract(r, 0, w); return v;
  }
  E newSym(bool uninit) {
    uint32_t i = S->nsym++;
    S->model.resize(S->nsym, 0); S->dom.resize(S->nsym); S->dom[i].set(); S->multi.resize(S->nsym, false);
    return X.sym(i, 8, uninit);
  }
  Val evalConst(const llvm::Constant *c) {
    Val r; llvm::Type *t = c->getType();
    if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(c)) { unsigned w = width(t); r.e = X.C(ci->getValue().getZExtValue(), w); return r; }
    if (auto *cf = llvm::dyn_cast<llvm::ConstantFP>(c)) { unsigned w = width(t); r.e = X.C(cf->getValueAPF().bitcastToAPInt().getZExtValue(), w); return r; }
    if (llvm::isa<llvm::ConstantPointerNull>(c)) { r.e = X.C(0, 64); return r; }
    if (auto *gv = llvm::dyn_cast<llvm::GlobalValue>(c)) {
      if (auto *ga = llvm::dyn_cast<llvm::GlobalAlias>(gv)) return evalConst(ga->getAliasee());
      auto it = gaddr.find(gv); if (it == gaddr.end()) throw Unsupported{"global " + gv->getName().str()}; r.e = X.C(it->second, 64); return r; }
    if (isAgg(t)) {
      std::vector<Val> v; unsigned n = aggN(t);
      for (unsigned i = 0; i < n; ++i) { auto *el = c->getAggregateElement(i); if (!el) throw Unsupported{"const aggregate"}; if (llvm::isa<llvm::UndefValue>(el)) { Val z; z.e = isAgg(el->getType()) ? nullptr : X.C(0, width(el->getType())); if (!z.e) z = evalConst(llvm::Constant::getNullValue(el->getType())); v.push_back(z); } else v.push_back(evalConst(el)); }
      return aggOf(std::move(v));
    }
    if (llvm::isa<llvm::UndefValue>(c)) { r.e = X.C(0, width(t)); return r; }
    if (auto *ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case llvm::Instruction::GetElementPtr: {
        auto *go = llvm::cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0);
        if (!go->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        Val b = evalConst(ce->getOperand(0)); r.e = X.bin(K::Add, b.e, X.C(off.getZExtValue(), 64)); return r; }
      case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: case llvm::Instruction::Trunc: case llvm::Instruction::ZExt: {
        Val b = evalConst(ce->getOperand(0)); unsigned w = width(t); r.e = b.e->w > w ? X.extract(b.e, 0, w) : X.zext(b.e, w); return r; }
      case llvm::Instruction::Add: case llvm::Instruction::Sub: case llvm::Instruction::Mul: {
        Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
        r.e = X.bin(ce->getOpcode() == llvm::Instruction::Add ? K::Add : ce->getOpcode() == llvm::Instruction::Sub ? K::Sub : K::Mul, a.e, b.e); return r; }
      case llvm::Instruction::ICmp: {
        Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); r.e = icmp((llvm::CmpInst::Predicate)ce->getPredicate(), a.e, b.e); return r; }
      case llvm::Instruction::Select: { Val a = evalConst(ce->getOperand(0)); return evalConst(ce->getOperand(a.e->v ? 1 : 2)); }
      default: throw Unsupported{"constant expression"};
      }
    }
    throw Unsupported{"constant"};
  }
  void initBytes(std::vector<E> &b, u64 off, const llvm::Constant *c) {
    llvm::Type *t = c->getType();
    if (llvm::isa<llvm::ConstantAggregateZero>(c) || llvm::isa<llvm::ConstantPointerNull>(c)) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; ++i) b[off + i] = X.C(0, 8); return; }
    if (llvm::isa<llvm::UndefValue>(c)) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; ++i) b[off + i] = X.C(0, 8); return; }
    if (auto *cd = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) { auto s = cd->getRawDataValues(); for (u64 i = 0; i < s.size(); ++i) b[off + i] = X.C((uint8_t)s[i], 8); return; }
    if (isAgg(t)) { for (unsigned i = 0; i < aggN(t); ++i) initBytes(b, off + aggOff(t, i), c->getAggregateElement(i)); return; }
    if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(c)) { unsigned n = DL->getTypeStoreSize(t); llvm::APInt v = ci->getValue().zext(std::max(64u, n * 8)); for (unsigned i = 0; i < n; ++i) b[off + i] = X.C(v.extractBitsAsZExtValue(8, i * 8), 8); return; }
    Val v = evalConst(c); unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n; ++i) b[off + i] = X.extract(X.zext(v.e, n * 8), i * 8, 8);
  }
  void setup(State &st) {
    u64 fa = 0x10000; for (auto &F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
    u64 ga = 0x1000000; 
    for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (sz == 0) sz = 1;
      ga = (ga + 63) & ~63ull; gaddr[&G] = ga; ga += sz + 64;
    }
    S = &st;
    for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (sz == 0) sz = 1;
      auto o = std::make_shared<Obj>(); o->base = gaddr[&G]; o->size = sz; o->b.assign(sz, X.C(0, 8));
      if (G.hasInitializer()) { try { initBytes(o->b, 0, G.getInitializer()); } catch (Unsupported &u) { if (O.verbose) fprintf(stderr, "init %s: %s\n", G.getName().str().c_str(), u.what.c_str()); } }
      o->kind = G.isConstant() ? OkConst : OkGlobal;
      if (G.isThreadLocal()) { tlsVars.push_back(&G); tlsByAddr[o->base] = &G; }
      if (G.isConstant()) constMem[o->base] = o; else st.mem[o->base] = o;
    }
  }
  FnInfo *info(const llvm::Function *F) {
    auto &p = fns[F]; if (p) return p.get();
    p.reset(new FnInfo); FnInfo *fi = p.get(); fi->F = F; std::map<const llvm::Value *, int> reg;
    for (auto &A : F->args()) reg[&A] = fi->nregs++;
    for (auto &B : *F) { auto *b = new BBInfo; b->bb = &B; b->fn = fi; fi->bbs.push_back(b); fi->m[&B] = b; allBB.push_back(b); for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
    fi->entry = fi->bbs.empty() ? nullptr : fi->bbs[0];
    auto mkop = [&](const llvm::Value *v) { Opnd o; o.ty = v->getType(); auto it = reg.find(v); if (it != reg.end()) { o.isReg = true; o.reg = it->second; return o; }
      if (llvm::isa<llvm::UndefValue>(v)) { o.isUndef = true; return o; }
      if (auto *c = llvm::dyn_cast<llvm::Constant>(v)) { try { o.c = evalConst(c); } catch (Unsupported &) { o.isUndef = true; o.ty = nullptr; } return o; }
      o.isUndef = true; o.ty = nullptr; return o; };
    for (auto *b : fi->bbs) for (auto &I : *b->bb) {
      if (llvm::isa<llvm::DbgInfoIntrinsic>(I)) continue;
      IInst n; n.I = &I; n.op = I.getOpcode(); n.ty = I.getType(); auto it = reg.find(&I); if (it != reg.end()) n.dest = it->second;
      try { if (!I.getType()->isVoidTy() && !isAgg(I.getType()) && !I.getType()->isTokenTy()) n.w = width(I.getType()); } catch (Unsupported &) { n.w = 255; }
      if (auto *ph = llvm::dyn_cast<llvm::PHINode>(&I)) { b->nphi++; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) n.phi.push_back({fi->m[ph->getIncomingBlock(i)], mkop(ph->getIncomingValue(i))}); }
      else if (auto *gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
        n.ops.push_back(mkop(gep->getPointerOperand())); 
        for (auto gi = llvm::gep_type_begin(gep), ge = llvm::gep_type_end(gep); gi != ge; ++gi) {
          if (auto *st = gi.getStructTypeOrNull()) n.goff += DL->getStructLayout(st)->getElementOffset(llvm::cast<llvm::ConstantInt>(gi.getOperand())->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(gi.getOperand())) n.goff += sz * ci->getSExtValue(); else { n.gidx.push_back({(unsigned)n.ops.size(), sz}); n.ops.push_back(mkop(gi.getOperand())); } }
        }
      } else if (auto *cb = llvm::dyn_cast<llvm::CallBase>(&I)) {
        n.nargs = cb->arg_size(); for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { Opnd o; o.isUndef = true; n.ops.push_back(o); } else n.ops.push_back(mkop(a)); }
        n.ops.push_back(mkop(cb->getCalledOperand())); n.callee = llvm::dyn_cast<llvm::Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (auto *iv = llvm::dyn_cast<llvm::InvokeInst>(cb)) { n.s0 = fi->m[iv->getNormalDest()]; n.s1 = fi->m[iv->getUnwindDest()]; }
        if (n.callee) { n.iid = n.callee->getIntrinsicID(); auto bi = bidx.find(n.callee->getName().str()); if (bi != bidx.end() && !replaced(n.callee)) n.builtin = bi->second; }
        if (llvm::isa<llvm::InlineAsm>(cb->getCalledOperand())) n.builtin = bidx["__vs_inline_asm"];
      } else if (auto *br = llvm::dyn_cast<llvm::BranchInst>(&I)) { if (br->isConditional()) { n.ops.push_back(mkop(br->getCondition())); n.s0 = fi->m[br->getSuccessor(0)]; n.s1 = fi->m[br->getSuccessor(1)]; } else n.s0 = fi->m[br->getSuccessor(0)]; }
      else { for (auto &o : I.operands()) { if (llvm::isa<llvm::BasicBlock>(o.get())) { Opnd x; x.isUndef = true; n.ops.push_back(x); } else n.ops.push_back(mkop(o.get())); } }
      if (auto *ld = llvm::dyn_cast<llvm::LoadInst>(&I)) n.vol = ld->isVolatile(); if (auto *sI = llvm::dyn_cast<llvm::StoreInst>(&I)) n.vol = sI->isVolatile();
      b->insts.push_back(std::move(n));
    }
    return fi;
  }

  // ---- state helpers
  Thread &T() { return S->th[S->cur]; }
  Frame &F() { return T().st.back(); }
  Val get(const Opnd &o) { if (o.isReg) return F().regs[o.reg]; if (o.isUndef) { if (!o.ty) throw Unsupported{"operand"}; return fresh(o.ty); } return o.c; }
  void setDest(const IInst &n, Val v) { if (n.dest >= 0) F().regs[n.dest] = v; }

  std::string locOf(const llvm::Instruction *I, std::string *chain = nullptr) {
    std::string first; if (!I) return "?"; const llvm::DILocation *d = I->getDebugLoc().get(); if (!d) return I->getFunction()->getName().str();
    std::string best;
    for (const llvm::DILocation *x = d; x; x = x->getInlinedAt()) {
      std::string f = x->getFilename().str(); if (!f.empty() && f[0] != '/') f = x->getDirectory().str() + "/" + f; std::string l = f + ":" + std::to_string(x->getLine());
      if (first.empty()) first = l; if (chain) { std::string fn; if (auto *sp = x->getScope()->getSubprogram()) fn = llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); if (fn.size() > 160) fn = fn.substr(0, 157) + "..."; *chain += "  " + l + " in " + fn + "\n"; }
    }
    return first;
  }
  std::string stackStr() { std::string s; auto &t = T(); for (int i = (int)t.st.size() - 1; i >= 0; --i) { auto &f = t.st[i]; if (f.bb && f.ip < f.bb->insts.size()) locOf(f.bb->insts[f.ip].I, &s); if (s.size() > 6000) break; } return s; }
  // first location inside srcRoot on the current stack (stable key for findings)
  std::string keyLoc() { std::string s = stackStr(); size_t p = 0, fb = s.find(' ', 2); std::string first = s.size() > 2 ? s.substr(2, fb == std::string::npos ? std::string::npos : fb - 2) : "?";
    while (p < s.size()) { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); if (l.find("  " + O.srcRoot) == 0) { size_t q = l.find(' ', 2); return l.substr(2, q - 2); } p = e + 1; } return first; }
  static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  std::string inputsJson(State &st, const std::vector<u64> &m) {
    std::string s = "["; bool f = true;
    for (auto &i : st.inputs) { if (!f) s += ","; f = false; s += "[\"" + esc(i->name) + "\",\""; for (auto x : i->syms) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(x < m.size() ? m[x] & 255 : 0)); s += b; } s += "\"]"; }
    return s + "]";
  }
  std::string obsJson(State &st, const std::vector<u64> &m) { std::string s = "["; bool f = true; for (E e : st.obs) { if (!f) s += ","; f = false; s += e->uninit ? std::string("null") : std::to_string(X.eval(e, m)); } return s + "]"; }
  void finding(const std::string &kind, const std::string &msg, const std::vector<u64> *m = nullptr) {
    std::string key = kind + "|" + (kind == "assert" ? msg : "") + "|" + keyLoc();
    auto it = findings.find(key); if (it != findings.end()) { it->second.count++; return; }
    Finding f; f.kind = kind; f.msg = msg; f.loc = keyLoc(); f.stack = stackStr(); const auto &mm = m ? *m : S->model; f.inputs = inputsJson(*S, mm); f.obs = obsJson(*S, mm);
    if (O.verbose) fprintf(stderr, "FINDING %s: %s at %s\n%s\n inputs %s\n", kind.c_str(), msg.c_str(), f.loc.c_str(), f.stack.c_str(), f.inputs.c_str());
    findings.emplace(key, f); if (findings.size() >= O.maxFindings) { stop = true; stopReason = "finding limit"; }
  }
  struct Bug { std::string kind, msg; };
  [[noreturn]] void bug(const std::string &k, const std::string &m) { throw Bug{k, m}; }
  void incomplete(const std::string &w) { if (incCount[w]++ == 0 && incompletes.size() < 50) incompletes.push_back(w + " @ " + (S && !S->th.empty() && !T().st.empty() ? keyLoc() : std::string())); }

  void addCons(State &st, E c) {
    if (c->isConst()) return;
    const auto &sy = X.syms(c)->v;
    if (c->w == 1 && c->k == K::And) { addCons(st, c->a); addCons(st, c->b); return; }
    if (sy.size() == 1) { auto &d = st.dom[sy[0]]; auto nd = d & X.truth(c, sy[0]); if (nd == d) return; d = nd; }
    else for (auto x : sy) st.multi[x] = true;
    st.cons.push_back(c);
  }
  // decide whether c can be true / false in st.  Fills models for the sides.
  void decide(State &st, E c, bool &canT, bool &canF, std::vector<u64> &mT, std::vector<u64> &mF) {
    if (c->isConst()) { canT = c->v; canF = !c->v; return; }
    const auto &sy = X.syms(c)->v; branchesSym++;
    if (sy.size() == 1) {
      auto &tt = X.truth(c, sy[0]); auto t = st.dom[sy[0]] & tt, f = st.dom[sy[0]] & ~tt;
      if (t.none() || f.none()) { SOL.st.ttDecided++; canT = t.any(); canF = f.any(); if (canT) mT = st.model; else mF = st.model; return; }
      if (!st.multi[sy[0]]) { SOL.st.ttDecided++; canT = canF = true; mT = mF = st.model; bool mv = X.eval(c, st.model); auto &o = mv ? mF : mT; auto &d = mv ? f : t; o[sy[0]] = d._Find_first(); return; }
    }
    bool mv = X.eval(c, st.model); SOL.st.modelDecided++;
    (mv ? mT : mF) = st.model; (mv ? canT : canF) = true;
    auto &o = mv ? mF : mT; o = st.model;
    R r = SOL.check(st.cons, mv ? X.notb(c) : c, &o);
    if (r == R::Unknown) { incomplete("solver timeout"); (mv ? canF : canT) = false; return; }
    (mv ? canF : canT) = r == R::Sat;
  }
  SP clone() { forks++; return std::make_unique<State>(*S); }
  // Does e really depend on an uninitialised byte?  Syntactic dependence is not
  // enough: a store at a symbolic offset leaves old bytes in unreachable arms.
  // Two copies of the uninitialised bytes that make e differ, both allowed by
  // the path, decide it.
  std::unordered_map<E, E> twinMap;
  E twin(E e) {
    if (!e->uninit) return e;
    auto it = twinMap.find(e); if (it != twinMap.end()) return it->second;
    E r;
    switch (e->k) {
    case K::Sym: r = X.sym((uint32_t)e->v + (1u << 30), e->w, true); break;
    case K::Extract: r = X.extract(twin(e->a), e->v, e->w); break;
    case K::ZExt: r = X.zext(twin(e->a), e->w); break;
    case K::SExt: r = X.sext(twin(e->a), e->w); break;
    case K::Concat: r = X.concat(twin(e->a), twin(e->b)); break;
    case K::Ite: r = X.ite(twin(e->a), twin(e->b), twin(e->c)); break;
    default: r = X.bin(e->k, twin(e->a), twin(e->b));
    }
    twinMap.emplace(e, r); return r;
  }
  bool depUninit(E e) {
    if (!e->uninit || !O.uninit) return false;
    E d = X.notb(X.bin(K::Eq, e, twin(e)));
    if (d->isConst()) return d->v;
    Cons cs = S->cons; for (E c : S->cons) if (c->uninit) cs.push_back(twin(c));
    R r = SOL.check(cs, d, nullptr); uninitQueries++;
    if (r == R::Unknown) incomplete("solver timeout");
    return r == R::Sat;
  }
  u64 uninitQueries = 0;
  // Branch on c: returns the side taken by the current state, queueing the other.
  // `retry`: the queued state re-executes the current instruction.
  bool branch(E c, const std::function<void(State &)> &otherFix = nullptr) {
    if (c->isConst()) return c->v;
    if (c->uninit && O.uninit && !S->uninitReported.count(curI) && depUninit(c)) { S->uninitReported.insert(curI); finding("uninit", "decision depends on an uninitialised value"); if (stop) throw Kill{}; }
    bool t = false, f = false; std::vector<u64> mT, mF; decide(*S, c, t, f, mT, mF);
    if (t && f) {
      auto o = clone(); S->forks++; o->forks++;
      addCons(*o, X.notb(c)); o->model = std::move(mF); if (otherFix) otherFix(*o); work.push_back(std::move(o));
      addCons(*S, c); S->model = std::move(mT); return true;
    }
    if (!t && !f) throw Kill{};
    return t;
  }
  // Concretise by forking over all feasible values; the other states retry.
  u64 fix(E e) {
    if (e->isConst()) return e->v;
    if (depUninit(e)) bug("uninit", "use of an uninitialised value as an address, size or selector");
    u64 v = X.eval(e, S->model); E c = X.bin(K::Eq, e, X.C(v, e->w));
    bool t = false, f = false; std::vector<u64> mT, mF; decide(*S, c, t, f, mT, mF);
    if (!t) throw Kill{};
    if (f) { if (++S->conc > O.maxConcretize) { incomplete("concretisation limit"); } else { auto o = clone(); addCons(*o, X.notb(c)); o->model = std::move(mF); work.push_back(std::move(o)); } }
    addCons(*S, c); S->model = mT; S->conc = 0;
    return v;
  }

  // ---- memory
  ObjP alloc(u64 size, ObjKind k, bool zero = false, bool uninit = true) {
    auto o = std::make_shared<Obj>(); u64 &nx = k == OkStack ? S->nextStack : S->nextHeap;
    nx = (nx + 15) & ~15ull; o->base = nx; nx += size + 48; o->size = size; o->kind = k; o->b.assign(size, zero ? X.C(0, 8) : nullptr); (void)uninit;
    S->mem[o->base] = o; if (k == OkNew || k == OkNewArr || k == OkMalloc) S->liveAllocs++;
    return o;
  }
  ObjP *find(u64 a) {
    auto it = S->mem.upper_bound(a);
    if (it != S->mem.begin()) { --it; if (a - it->first < std::max<u64>(it->second->size, 1)) return &it->second; }
    auto ic = constMem.upper_bound(a);
    if (ic != constMem.begin()) { --ic; if (a - ic->first < ic->second->size) return &ic->second; }
    return nullptr;
  }
  std::string describe(u64 a) {
    char b[200]; if (a < 4096) { snprintf(b, 200, "null pointer (address %llu)", (unsigned long long)a); return b; }
    auto it = S->mem.upper_bound(a);
    if (it != S->mem.begin()) { --it; auto &o = it->second; u64 d = a - o->base; if (d < o->size + 48) { snprintf(b, 200, "offset %llu of a %s%s object of %llu bytes", (unsigned long long)d, o->alive ? "" : "dead ", kindName(o->kind), (unsigned long long)o->size); return b; } }
    if (a >= 0x600000000ull) return "stack memory out of its lifetime"; snprintf(b, 200, "wild address 0x%llx", (unsigned long long)a); return b;
  }
  Obj &writable(ObjP *p) { if (p->use_count() > 1) *p = std::make_shared<Obj>(**p); return **p; }
  void raceCheck(ObjP *p, u64 off, u64 n, bool write) {
    if (!O.races || S->th.size() < 2 || (*p)->kind == OkConst) return;
    Obj &o = writable(p); if (o.race.empty()) o.race.resize(o.size);
    int me = S->cur; auto &vc = T().vc; if (me >= 6) return;
    for (u64 i = off; i < off + n && i < o.size; ++i) {
      auto &r = o.race[i];
      if (r.wt != 255 && r.wt != me && r.wc > vc[r.wt]) bug("data-race", "conflicting access not ordered by synchronisation: " + describe(o.base + i));
      if (write) { for (int t = 0; t < 6; ++t) if (t != me && r.r[t] && r.r[t] > (t < (int)vc.size() ? vc[t] : 0)) bug("data-race", "conflicting access not ordered by synchronisation: " + describe(o.base + i)); r.wt = me; r.wc = vc[me]; r.r.fill(0); }
      else r.r[me] = vc[me];
    }
  }
  // resolve an address expression for an n-byte access; returns object and (possibly symbolic) offset
  ObjP *resolve(E a, u64 n, E &off, bool write) {
    if (a->isConst()) {
      ObjP *p = find(a->v); if (!p && n == 0) return nullptr;
      if (!p) bug(a->v < 4096 ? "null-deref" : "invalid-access", std::string(write ? "write" : "read") + " through " + describe(a->v));
      Obj &o = **p; u64 d = a->v - o.base;
      if (!o.alive) bug("use-after-free", std::string(write ? "write to " : "read of ") + describe(a->v));
      if (d + n > o.size) bug("out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describe(a->v));
      if (write && o.kind == OkConst) bug("write-to-constant", "write to constant memory");
      off = X.C(d, 64); return p;
    }
    if (depUninit(a)) bug("uninit", "dereference of an uninitialised pointer");
    u64 v = X.eval(a, S->model); ObjP *p = find(v);
    if (!p || v - (*p)->base + n > (*p)->size || !(*p)->alive) { // a concrete bad address exists
      bug(v < 4096 ? "null-deref" : p && !(*p)->alive ? "use-after-free" : "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describe(v));
    }
    Obj &o = **p;
    E in = X.bin(K::Ule, X.bin(K::Sub, a, X.C(o.base, 64)), X.C(o.size - n, 64));
    bool t = false, f = false; std::vector<u64> mT, mF; decide(*S, in, t, f, mT, mF);
    if (f) { auto q = clone(); addCons(*q, X.notb(in)); q->model = mF; work.push_back(std::move(q)); addCons(*S, in); S->model = mT; }
    if (write && o.kind == OkConst) bug("write-to-constant", "write to constant memory");
    off = X.bin(K::Sub, a, X.C(o.base, 64));
    if (o.size > 512) off = X.C(fix(off), 64);
    return p;
  }
  E byteAt(Obj &o, u64 i) { E r = o.b[i]; if (!r) { r = newSym(true); o.b[i] = r; } return r; }
  E loadE(E a, u64 n, bool noRace = false) {
    E off; ObjP *p = resolve(a, n, off, false);
    if (!noRace) { if (off->isConst()) raceCheck(p, off->v, n, false); else raceCheck(p, 0, (*p)->size, false); }
    Obj *o = p->get(); 
    auto anyUninit = [&](u64 s, u64 e) { for (u64 i = s; i < e; ++i) if (!o->b[i]) return true; return false; };
    if (off->isConst()) {
      if (n > 8) throw Unsupported{"load wider than 8 bytes"};
      if (anyUninit(off->v, off->v + n)) o = &writable(p);
      bool allc = true; u64 cv = 0; for (u64 i = 0; i < n; ++i) { E b = byteAt(*o, off->v + i); if (b->isConst()) cv |= b->v << (8 * i); else { allc = false; break; } }
      if (allc) return X.C(cv, n * 8);
      E r = byteAt(*o, off->v); for (u64 i = 1; i < n; ++i) r = X.concat(byteAt(*o, off->v + i), r);
      return r;
    }
    if (anyUninit(0, o->size)) o = &writable(p);
    E r = nullptr;
    for (u64 k = 0; k + n <= o->size; ++k) {
      E x = byteAt(*o, k); for (u64 i = 1; i < n; ++i) x = X.concat(byteAt(*o, k + i), x);
      r = r ? X.ite(X.bin(K::Eq, off, X.C(k, 64)), x, r) : x;
    }
    return r;
  }
  void storeE(E a, E v, u64 n, bool noRace = false) {
    E off; ObjP *p = resolve(a, n, off, true);
    // few places on one byte of input: one path per place
    if (!off->isConst() && X.syms(off)->v.size() == 1) { std::set<u64> pl; u64 sy = X.syms(off)->v[0]; std::vector<u64> m(sy + 1, 0); for (unsigned i = 0; i < 256 && pl.size() <= 4; ++i) if (S->dom[sy][i]) { m[sy] = i; pl.insert(X.eval(off, m)); } if (pl.size() <= 4) off = X.C(fix(off), 64); }
    if (!noRace) { if (off->isConst()) raceCheck(p, off->v, n, true); else raceCheck(p, 0, (*p)->size, true); }
    Obj &o = writable(p);
    if (off->isConst()) {
      if (v->isConst()) { for (u64 i = 0; i < n; ++i) o.b[off->v + i] = X.C(i < 8 ? v->v >> (8 * i) : 0, 8); return; }
      for (u64 i = 0; i < n; ++i) o.b[off->v + i] = X.extract(v, 8 * i, 8);
      return;
    }
    for (u64 k = 0; k < o.size; ++k) {
      E nb = byteAt(o, k);
      for (u64 i = 0; i < n && i <= k; ++i) if (k - i + n <= o.size) nb = X.ite(X.bin(K::Eq, off, X.C(k - i, 64)), X.extract(v, 8 * i, 8), nb);
      o.b[k] = nb;
    }
  }
  Val loadT(E a, llvm::Type *t, bool nr) {
    if (isAgg(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); ++i) v.push_back(loadT(X.bin(K::Add, a, X.C(aggOff(t, i), 64)), aggT(t, i), nr)); return aggOf(std::move(v)); }
    unsigned w = width(t); unsigned n = DL->getTypeStoreSize(t); Val r; r.e = X.extract(loadE(a, n, nr), 0, w); return r;
  }
  void storeT(E a, Val v, llvm::Type *t, bool nr) {
    if (isAgg(t)) { for (unsigned i = 0; i < aggN(t); ++i) storeT(X.bin(K::Add, a, X.C(aggOff(t, i), 64)), v.g->v[i], aggT(t, i), nr); return; }
    unsigned n = DL->getTypeStoreSize(t); storeE(a, X.zext(v.e, n * 8), n, nr);
  }
  // raw byte ranges (concrete address)
  ObjP *range(u64 a, u64 n, bool write) { E off; ObjP *p = resolve(X.C(a, 64), n, off, write); if (n) raceCheck(p, a - (*p)->base, n, write); return p; }
  void copyBytes(u64 d, u64 s, u64 n) {
    if (!n) return; ObjP *ps = range(s, n, false); std::vector<E> t((*ps)->b.begin() + (s - (*ps)->base), (*ps)->b.begin() + (s - (*ps)->base + n));
    ObjP *pd = range(d, n, true); Obj &o = writable(pd); std::copy(t.begin(), t.end(), o.b.begin() + (d - o.base));
  }
  std::string cstr(u64 a) { std::string s; if (!a) return "(null)"; for (;;) { E e = loadE(X.C(a++, 64), 1, true); u64 c = fix(e); if (!c || s.size() > 4000) break; s += (char)c; } return s; }

  // ---- control
  void pushFrame(const llvm::Function *Fn, std::vector<Val> &args, bool special = false) {
    if (Fn->isDeclaration()) throw Unsupported{"external function " + Fn->getName().str()};
    if (T().st.size() >= O.maxDepth) bug("stack-depth", "call depth exceeds " + std::to_string(O.maxDepth) + " (unbounded recursion)");
    FnInfo *fi = info(Fn); Frame f; f.fn = fi; f.regs.resize(fi->nregs); f.bb = fi->entry; f.special = special;
    unsigned na = Fn->arg_size();
    if (args.size() < na) throw Unsupported{"too few call arguments"};
    for (unsigned i = 0; i < na; ++i) {
      if (Fn->hasParamAttribute(i, llvm::Attribute::ByVal)) { u64 sz = DL->getTypeAllocSize(Fn->getParamByValType(i)); auto o = alloc(sz, OkStack, false); u64 src = fix(args[i].e); f.allocas.push_back(o->base); copyBytes(o->base, src, sz); f.regs[i].e = X.C(o->base, 64); }
      else f.regs[i] = args[i];
    }
    if (Fn->isVarArg() && args.size() > na) {
      auto o = alloc(8 * (args.size() - na), OkStack, true); f.va = o->base; f.allocas.push_back(o->base);
      for (unsigned i = na; i < args.size(); ++i) { if (!args[i].e) throw Unsupported{"aggregate vararg"}; Obj &w = writable(&S->mem[o->base]); E e = X.zext(args[i].e, 64); for (int k = 0; k < 8; ++k) w.b[(i - na) * 8 + k] = X.extract(e, 8 * k, 8); }
    } else if (Fn->isVarArg()) { auto o = alloc(8, OkStack, true); f.va = o->base; f.allocas.push_back(o->base); }
    f.bb->seen = true;
    T().st.push_back(std::move(f)); maxFrames = std::max<u64>(maxFrames, T().st.size());
  }
  void dropFrame() { for (u64 a : F().allocas) S->mem.erase(a); T().st.pop_back(); }
  void jump(BBInfo *to) {
    Frame &f = F(); f.prev = f.bb; f.bb = to; f.ip = 0; to->seen = true;
    if (to->nphi) {
      std::vector<Val> t(to->nphi);
      for (unsigned i = 0; i < to->nphi; ++i) { bool ok = false; for (auto &p : to->insts[i].phi) if (p.first == f.prev) { t[i] = get(p.second); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
      for (unsigned i = 0; i < to->nphi; ++i) f.regs[to->insts[i].dest] = t[i];
      f.ip = to->nphi;
    }
  }
  void finishCall(const IInst &n) { if (n.op == llvm::Instruction::Invoke) jump(n.s0); else F().ip++; }

  // ---- exceptions
  std::string tiName(u64 ti) { for (auto &g : gaddr) if (g.second == ti) return llvm::demangle(g.first->getName().str()); return "?"; }
  const llvm::GlobalVariable *tiVar(u64 ti) { for (auto &g : gaddr) if (g.second == ti) return llvm::dyn_cast<llvm::GlobalVariable>(g.first); return nullptr; }
  bool tiMatch(u64 thrown, u64 want, int64_t &adj) {
    if (thrown == want) return true;
    auto *g = tiVar(thrown); if (!g || !g->hasInitializer()) return false;
    auto *init = llvm::dyn_cast<llvm::ConstantStruct>(g->getInitializer()); if (!init || init->getNumOperands() < 3) return false;
    auto *vt = init->getOperand(0)->stripInBoundsConstantOffsets(); std::string vn = vt->getName().str();
    if (vn.find("__si_class_type_info") != std::string::npos) { Val b = evalConst(init->getOperand(2)); return tiMatch(b.e->v, want, adj); }
    if (vn.find("__vmi_class_type_info") != std::string::npos) {
      for (unsigned i = 4; i + 1 < init->getNumOperands(); i += 2) { Val b = evalConst(init->getOperand(i)); int64_t off = llvm::cast<llvm::ConstantInt>(init->getOperand(i + 1))->getSExtValue(); if (!(off & 2)) continue; int64_t a2 = adj + (off >> 8); if (tiMatch(b.e->v, want, a2)) { adj = a2; return true; } }
    }
    return false;
  }
  // evaluates landing pad clauses: 0 = not entered, 1 = cleanup only, 2 = handler
  int clauses(const llvm::LandingPadInst *lp, u64 ti, u64 &sel, int64_t &adj) {
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
      auto *c = lp->getClause(i);
      if (lp->isCatch(i)) { Val v = evalConst(c); adj = 0; if (v.e->v == 0) { sel = selOf(0); return 2; } if (tiMatch(ti, v.e->v, adj)) { sel = selOf(v.e->v); return 2; } }
      else { // filter: entered when the type is not listed
        bool listed = false; unsigned n = aggN(c->getType()); for (unsigned k = 0; k < n; ++k) { Val v = evalConst(c->getAggregateElement(k)); adj = 0; if (tiMatch(ti, v.e->v, adj)) listed = true; }
        if (!listed) { sel = 0xffffffffu; return 2; }
      }
    }
    if (lp->isCleanup()) { sel = 0; return 1; }
    return 0;
  }
  u64 selOf(u64 ti) { return ti == 0 ? 0x7ffffff0u : (ti & 0x7fffffff); }
  const llvm::LandingPadInst *lpOf(const Frame &f) { const IInst &n = f.bb->insts[f.ip]; if (n.op != llvm::Instruction::Invoke) return nullptr; return n.s1->bb->getLandingPadInst(); }
  void unwind(u64 obj, bool popTop) {
    u64 ti = S->excs[obj].ti; auto &t = T(); u64 sel; int64_t adj = 0;
    int top = (int)t.st.size() - 1 - (popTop ? 1 : 0); bool handled = false;
    for (int i = top; i >= 0; --i) { auto *lp = lpOf(t.st[i]); if (lp && clauses(lp, ti, sel, adj) == 2) { handled = true; break; } }
    if (!handled) bug("uncaught-exception", "exception of type " + tiName(ti) + " escapes");
    if (popTop) dropFrame();
    while (!t.st.empty()) {
      auto *lp = lpOf(F()); adj = 0;
      if (lp) { int c = clauses(lp, ti, sel, adj); if (c) { S->excs[obj].adj = adj; const IInst &n = F().bb->insts[F().ip]; BBInfo *d = n.s1; jump(d);
          // set landing pad value
          IInst &li = d->insts[F().ip]; if (li.op != llvm::Instruction::LandingPad) throw Unsupported{"landing pad"};
          Val a, b; a.e = X.C(obj, 64); b.e = X.C(sel, 32); setDest(li, aggOf({a, b})); F().ip++; return; } }
      dropFrame();
    }
    throw Unsupported{"unwind"};
  }

  // ---- scheduling
  std::vector<int> enabled() { std::vector<int> r; for (int i = 0; i < (int)S->th.size(); ++i) if (S->th[i].stat == TRun) r.push_back(i); return r; }
  void recordInput(const std::string &name, std::vector<uint32_t> syms, bool sched = false) { auto r = std::make_shared<InputRec>(); r->name = name; r->syms = std::move(syms); r->sched = sched; S->inputs.push_back(r); }
  unsigned chooseN(unsigned n, const char *name, bool sched = false) { // forks n ways; current state gets value 0..; the clones get the others and continue after the choice
    if (n <= 1) return 0; throw Unsupported{"chooseN"}; (void)name; (void)sched;
  }
  // A choice among n alternatives made by a fresh symbolic byte.  Two-phase: the
  // first execution creates the symbol and retries; the pending value is then fixed by forking.
  std::map<State *, E> dummy;

  // ---- main loop
  bool step(); void run();
  void execCall(const IInst &n); bool intrinsic(const IInst &n);
  E icmp(llvm::CmpInst::Predicate p, E a, E b) {
    switch (p) {
    case llvm::CmpInst::ICMP_EQ: return X.bin(K::Eq, a, b);
    case llvm::CmpInst::ICMP_NE: return X.notb(X.bin(K::Eq, a, b));
    case llvm::CmpInst::ICMP_ULT: return X.bin(K::Ult, a, b);
    case llvm::CmpInst::ICMP_ULE: return X.bin(K::Ule, a, b);
    case llvm::CmpInst::ICMP_UGT: return X.bin(K::Ult, b, a);
    case llvm::CmpInst::ICMP_UGE: return X.bin(K::Ule, b, a);
    case llvm::CmpInst::ICMP_SLT: return X.bin(K::Slt, a, b);
    case llvm::CmpInst::ICMP_SLE: return X.bin(K::Sle, a, b);
    case llvm::CmpInst::ICMP_SGT: return X.bin(K::Slt, b, a);
    case llvm::CmpInst::ICMP_SGE: return X.bin(K::Sle, b, a);
    default: throw Unsupported{"icmp"};
    }
  }
  void require(E ok, const char *kind, const char *msg) { // UB check: report if ok can be false, continue assuming ok
    if (ok->isTrue()) return;
    if (ok->isFalse()) bug(kind, msg);
    if (ok->uninit && depUninit(ok)) return;
    bool t = false, f = false; std::vector<u64> mT, mF; decide(*S, ok, t, f, mT, mF);
    if (f) finding(kind, msg, &mF); if (stop || !t) throw Kill{};
    if (f) { addCons(*S, ok); S->model = mT; }
  }
  // overflow predicate helpers
  E noSOvf(unsigned op, E a, E b) {
    unsigned w = a->w;
    if (op == llvm::Instruction::Mul) {
      if (w <= 32) { E p = X.bin(K::Mul, X.sext(a, 2 * w), X.sext(b, 2 * w)); return X.bin(K::Eq, p, X.sext(X.extract(p, 0, w), 2 * w)); }
      // 64-bit: if constants, decide exactly, else via division
      if (a->isConst() && b->isConst()) { int64_t r; return __builtin_mul_overflow((int64_t)a->v, (int64_t)b->v, &r) ? X.F() : X.T(); }
      E r = X.bin(K::Mul, a, b); E z = X.bin(K::Eq, a, X.C(0, w)); E m1 = X.bin(K::Eq, a, X.C(~0ull, w)); E mn = X.bin(K::Eq, b, X.C(1ull << (w - 1), w));
      return X.orb(z, X.andb(X.bin(K::Eq, X.bin(K::SDiv, r, a), b), X.notb(X.andb(m1, mn))));
    }
    E r = X.bin(op == llvm::Instruction::Add ? K::Add : K::Sub, a, b); E z = X.C(0, w); E an = X.bin(K::Slt, a, z), bn = X.bin(K::Slt, b, z), rn = X.bin(K::Slt, r, z);
    E same = X.bin(K::Eq, an, bn); E rs = X.bin(K::Eq, rn, an);
    if (op == llvm::Instruction::Add) return X.orb(X.notb(same), rs);
    return X.orb(same, rs);
  }
  E noUOvf(unsigned op, E a, E b) {
    unsigned w = a->w;
    if (op == llvm::Instruction::Add) return X.bin(K::Ule, a, X.bin(K::Add, a, b));
    if (op == llvm::Instruction::Sub) return X.bin(K::Ule, b, a);
    if (w <= 32) { E p = X.bin(K::Mul, X.zext(a, 2 * w), X.zext(b, 2 * w)); return X.bin(K::Eq, p, X.zext(X.extract(p, 0, w), 2 * w)); }
    if (a->isConst() && b->isConst()) { u64 r; return __builtin_mul_overflow(a->v, b->v, &r) ? X.F() : X.T(); }
    if (b->isConst()) return b->v == 0 ? X.T() : X.bin(K::Ule, a, X.C(~0ull / b->v, w)); if (a->isConst()) return noUOvf(op, b, a);
    return X.orb(X.bin(K::Eq, a, X.C(0, w)), X.bin(K::Eq, X.bin(K::UDiv, X.bin(K::Mul, a, b), a), b));
  }
  Val fpBin(unsigned op, Val a, Val b, unsigned w) {
    if (!a.e->isConst() || !b.e->isConst()) throw Unsupported{"symbolic floating point"};
    Val r;
    if (w == 64) { double x, y, z; memcpy(&x, &a.e->v, 8); memcpy(&y, &b.e->v, 8); z = op == llvm::Instruction::FAdd ? x + y : op == llvm::Instruction::FSub ? x - y : op == llvm::Instruction::FMul ? x * y : op == llvm::Instruction::FDiv ? x / y : fmod(x, y); u64 v; memcpy(&v, &z, 8); r.e = X.C(v, 64); }
    else { float x, y, z; uint32_t p = a.e->v, q = b.e->v; memcpy(&x, &p, 4); memcpy(&y, &q, 4); z = op == llvm::Instruction::FAdd ? x + y : op == llvm::Instruction::FSub ? x - y : op == llvm::Instruction::FMul ? x * y : op == llvm::Instruction::FDiv ? x / y : fmodf(x, y); memcpy(&p, &z, 4); r.e = X.C(p, 32); }
    return r;
  }
  double fpVal(E e) { if (!e->isConst()) throw Unsupported{"symbolic floating point"}; if (e->w == 64) { double d; memcpy(&d, &e->v, 8); return d; } float f; uint32_t p = e->v; memcpy(&f, &p, 4); return f; }
  E fpE(double d, unsigned w) { if (w == 64) { u64 v; memcpy(&v, &d, 8); return X.C(v, 64); } float f = d; uint32_t p; memcpy(&p, &f, 4); return X.C(p, 32); }

  // ---- builtins
  // a harness may replace operator new (oom.h): only its definition is executed then
  static bool replaced(const llvm::Function *f) { return !f->isDeclaration() && (f->getName() == "_Znwm" || f->getName() == "_Znam"); }
  void reg(const char *n, BFn f) { bidx[n] = builtins.size(); builtins.push_back(f); }
  void regAll();
  E argE(std::vector<Val> &a, unsigned i) { if (i >= a.size() || !a[i].e) throw Unsupported{"builtin argument"}; return a[i].e; }
#define BI(name) void name(const IInst &n, std::vector<Val> &a, Val &ret)
  BI(b_new) { newObj(a, ret, OkNew); }
  BI(b_newarr) { newObj(a, ret, OkNewArr); }
  BI(b_malloc) { newObj(a, ret, OkMalloc); }
  BI(b_calloc) { u64 x = fix(argE(a, 0)) * fix(argE(a, 1)); auto o = alloc(x, OkMalloc, true); ret.e = X.C(o->base, 64); }
  BI(b_realloc) { u64 p = fix(argE(a, 0)), s = fix(argE(a, 1)); auto o = alloc(s, OkMalloc); ret.e = X.C(o->base, 64); if (p) { ObjP *q = find(p); if (!q || (*q)->base != p || !(*q)->alive) bug("bad-free", "realloc of invalid pointer"); copyBytes(o->base, p, std::min(s, (*q)->size)); freeObj(p, OkMalloc, "realloc"); } }
  void newObj(std::vector<Val> &a, Val &ret, ObjKind k) {
    u64 s = fix(argE(a, 0));
    if (s > (1ull << 26)) { if (k == OkMalloc) { ret.e = X.C(0, 64); return; } auto *f = M->getFunction("_ZSt17__throw_bad_allocv"); if (!f || f->isDeclaration()) bug("bad-alloc", "allocation of " + std::to_string(s) + " bytes"); std::vector<Val> no; pushFrame(f, no); throw Pushed{}; }
    auto o = alloc(s, k); ret.e = X.C(o->base, 64);
  }
  struct Pushed {};
  void freeObj(u64 p, ObjKind k, const char *what) {
    if (!p) return; ObjP *q = find(p);
    if (!q) bug("bad-free", std::string(what) + " of " + describe(p));
    if (!(*q)->alive) bug("double-free", std::string(what) + " of already freed memory");
    if ((*q)->base != p) bug("bad-free", std::string(what) + " of a pointer into the middle of an object");
    if ((*q)->kind != k) bug((*q)->kind == OkNew || (*q)->kind == OkNewArr || (*q)->kind == OkMalloc ? "alloc-dealloc-mismatch" : "bad-free", std::string(what) + " of memory obtained from " + kindName((*q)->kind));
    raceCheck(q, 0, (*q)->size, true);
    Obj &o = writable(q); o.alive = false; S->liveAllocs--; 
  }
  BI(b_delete) { freeObj(fix(argE(a, 0)), OkNew, "delete"); }
  BI(b_deletearr) { freeObj(fix(argE(a, 0)), OkNewArr, "delete[]"); }
  BI(b_free) { freeObj(fix(argE(a, 0)), OkMalloc, "free"); }
  BI(b_memcpy) { u64 d = fix(argE(a, 0)), s = fix(argE(a, 1)), c = fix(argE(a, 2)); if (c && d != s && d < s + c && s < d + c && n.callee->getName() == "memcpy") bug("overlap", "memcpy with overlapping ranges"); copyBytes(d, s, c); ret.e = X.C(d, 64); }
  BI(b_memmove) { u64 d = fix(argE(a, 0)), s = fix(argE(a, 1)), c = fix(argE(a, 2)); copyBytes(d, s, c); ret.e = X.C(d, 64); }
  BI(b_memset) { u64 d = fix(argE(a, 0)), c = fix(argE(a, 2)); E v = X.extract(argE(a, 1), 0, 8); if (c) { ObjP *p = range(d, c, true); Obj &o = writable(p); for (u64 i = 0; i < c; ++i) o.b[d - o.base + i] = v; } ret.e = X.C(d, 64); }
  BI(b_memcmp) {
    u64 x = fix(argE(a, 0)), y = fix(argE(a, 1)), c = fix(argE(a, 2)); E r = X.C(0, 32);
    if (c) { range(x, c, false); range(y, c, false); std::vector<E> p, q; for (u64 i = 0; i < c; ++i) { p.push_back(loadE(X.C(x + i, 64), 1)); q.push_back(loadE(X.C(y + i, 64), 1)); }
      for (int64_t i = c - 1; i >= 0; --i) { E eq = X.bin(K::Eq, p[i], q[i]); if (eq->isTrue()) continue; r = X.ite(eq, r, X.ite(X.bin(K::Ult, p[i], q[i]), X.C(~0ull, 32), X.C(1, 32))); } }
    ret.e = r; }
  BI(b_abort) { bug("abort", "abort() called"); }
  BI(b_terminate) { bug("terminate", "std::terminate called (exception escapes a noexcept boundary)"); }
  BI(b_assertfail) { std::string m = cstr(fix(argE(a, 0))); bug("assertion", "library assertion failed: " + m); }
  BI(b_purevirt) { bug("pure-virtual", "pure virtual call"); }
  BI(b_nop) { if (n.w && n.w < 255) ret.e = X.C(0, n.w); }
  BI(b_ret1) { ret.e = X.C(1, n.w); }
  BI(b_sym) { u64 p = fix(argE(a, 0)), c = fix(argE(a, 1)); std::string nm = cstr(fix(argE(a, 2))); ObjP *q = range(p, c, true); Obj &o = writable(q); std::vector<uint32_t> s; for (u64 i = 0; i < c; ++i) { s.push_back(S->nsym); o.b[p - o.base + i] = newSym(false); } recordInput(nm, s); }
  E pendingChoice = nullptr;
  BI(b_choose) { // vf_choose(n, name): n-way fork on a fresh symbolic byte
    u64 c = fix(argE(a, 0)); if (c == 0 || c > 256) throw Unsupported{"vf_choose range"}; std::string nm = cstr(fix(argE(a, 1)));
    ret.e = X.C(fork(c, nm, [&](State &o, u64 v) { Frame &f = o.th[o.cur].st.back(); if (n.dest >= 0) f.regs[n.dest].e = X.C(v, n.w); afterCall(o, n); }), n.w);
  }
  void afterCall(State &o, const IInst &n) { State *sv = S; S = &o; finishCall(n); S = sv; }
  // n-way fork: current continues with value 0, clones with 1..c-1 are completed by fixOther
  u64 fork(u64 c, const std::string &nm, const std::function<void(State &, u64)> &fixOther) {
    uint32_t idx = S->nsym; E s = newSym(false); recordInput(nm, {idx});
    for (int v = 0; v < 256; ++v) if (v >= (int)c) S->dom[idx].reset(v);
    if (c < 256) S->cons.push_back(X.bin(K::Ult, s, X.C(c, 8)));
    std::vector<SP> os;
    for (u64 v = 1; v < c; ++v) { auto o = clone(); o->forks++; addCons(*o, X.bin(K::Eq, s, X.C(v, 8))); o->model[idx] = v; fixOther(*o, v); os.push_back(std::move(o)); }
    for (auto it = os.rbegin(); it != os.rend(); ++it) work.push_back(std::move(*it));
    addCons(*S, X.bin(K::Eq, s, X.C(0, 8))); S->model[idx] = 0; if (c > 1) S->forks++;
    return 0;
  }
  BI(b_assume) { E c = toBool(argE(a, 0)); if (!c->isConst()) { bool t = false, f = false; std::vector<u64> mT, mF; decide(*S, c, t, f, mT, mF); if (!t) { throw Kill{}; } if (f) { addCons(*S, c); S->model = mT; } } else if (!c->v) throw Kill{}; }
  E toBool(E e) { return e->w == 1 ? e : X.notb(X.bin(K::Eq, e, X.C(0, e->w))); }
  BI(b_assert) {
    E c = toBool(argE(a, 0)); asserts++;
    if (c->isTrue()) return; std::string m = cstr(fix(argE(a, 1)));
    if (c->isFalse()) bug("assert", m);
    if (depUninit(c)) { finding("uninit", "checked result depends on an uninitialised value: " + m); throw Kill{}; }
    // the deciding query: path /\ not(assertion), by the SMT solver
    std::vector<u64> mF = S->model; bool mv = X.eval(c, S->model); R r; 
    if (!mv) r = R::Sat; else { assertZ3++; r = SOL.check(S->cons, X.notb(c), &mF, true); }
    if (r == R::Unknown) { incomplete("solver timeout on assertion"); return; }
    if (r == R::Sat) {
      finding("assert", m, &mF); if (stop) throw Kill{};
      std::vector<u64> mT = S->model; if (SOL.check(S->cons, c, &mT) != R::Sat) throw Kill{};
      addCons(*S, c); S->model = mT;
    }
  }
  BI(b_reach) { reach[cstr(fix(argE(a, 0)))]++; }
  BI(b_observe) { S->obs.push_back(X.zext(argE(a, 0), 64)); }
  BI(b_fix) { ret.e = X.C(fix(argE(a, 0)), n.w); }
  BI(b_issym) { ret.e = X.C(argE(a, 0)->isConst() ? 0 : 1, n.w); }
  BI(b_live) { ret.e = X.C(S->liveAllocs, 64); }
  BI(b_param) { std::string k = cstr(fix(argE(a, 0))); auto it = O.params.find(k); ret.e = it == O.params.end() ? argE(a, 1) : X.C((u64)it->second, 64); }
  BI(b_native) { ret.e = X.C(0, n.w); }
  void takeSample() {
      auto sample = [&](bool push) { std::string s = "{\"inputs\":" + inputsJson(*S, S->model) + ",\"obs\":" + obsJson(*S, S->model) + "}"; if (push) samples.push_back(s); else samples[rng() % samples.size()] = s; };
      if (samples.size() < O.samples) sample(true); else if (O.samples && rng() % paths < O.samples) sample(false);
  }
  BI(b_exit) { throw Exit{}; }
  BI(b_endpath) { throw Exit{true}; }
  struct Exit { bool sampled = false; };
  BI(b_strtod) { // vf_strtod(text, &bits, width): the text is concrete; characters read and, above them, whether it is out of range
    std::string t = cstr(fix(argE(a, 0))); u64 p = fix(argE(a, 1)), w = fix(argE(a, 2)); char *e; errno = 0; u64 v = 0; if (w == 32) { float x = ::strtof(t.c_str(), &e); uint32_t y; memcpy(&y, &x, 4); v = y; } else { double x = ::strtod(t.c_str(), &e); memcpy(&v, &x, 8); }
    storeE(X.C(p, 64), X.C(v, 64), 8); ret.e = X.C((u64)(e - t.c_str()) | (errno == ERANGE ? 1ull << 32 : 0), n.w); }
  BI(b_print) { fprintf(stderr, "vf_print: %s %s\n", cstr(fix(argE(a, 0))).c_str(), X.str(argE(a, 1), 8).c_str()); }
  BI(b_note) { assumptions.insert(cstr(fix(argE(a, 0)))); }
  BI(b_fail) { bug("assert", cstr(fix(argE(a, 0)))); }
  // threads
  BI(b_tcreate) {
    Thread t; t.vc = T().vc; int id = S->th.size(); for (auto &x : S->th) x.vc.resize(id + 1, 0); t.vc.resize(id + 1, 0); t.vc[id] = 1; T().vc[S->cur]++;
    u64 fp = fix(argE(a, 0)); auto it = fnAt.find(fp); if (it == fnAt.end()) bug("invalid-call", "thread entry"); std::vector<Val> args; args.push_back(a[1]);
    S->th.push_back(std::move(t)); int me = S->cur; S->cur = id; pushFrame(it->second, args); S->cur = me; ret.e = X.C(id, n.w);
  }
  void switchTo(int id) { S->cur = id; }
  BI(b_sched) {
    schedPoints++; 
    if (S->th.size() < 2) return; auto en = enabled(); if (en.size() < 2) return; if (S->preempts >= O.preempt) return;
    // order: current first, then the others
    std::vector<int> ord{S->cur}; for (int t : en) if (t != S->cur) ord.push_back(t);
    fork(ord.size(), "sched", [&](State &o, u64 v) { afterCall(o, n); o.preempts++; o.cur = ord[v]; });
  }
  BI(b_block) {
    u64 k = fix(argE(a, 0)); T().stat = TBlocked; T().key = k; auto en = enabled();
    if (en.empty()) { T().stat = TBlocked; deadlock(); }
    if (en.size() > 1) { fork(en.size(), "sched", [&](State &o, u64 v) { afterCall(o, n); o.cur = en[v]; }); finishCall(n); S->cur = en[0]; throw Switched{}; }
    finishCall(n); S->cur = en[0]; throw Switched{};
  }
  struct Switched {};
  void deadlock() { bug("deadlock", "all threads are blocked"); }
  BI(b_wakeall) { u64 k = fix(argE(a, 0)); for (auto &t : S->th) if (t.stat == TBlocked && t.key == k) t.stat = TRun; }
  BI(b_wakeone) {
    u64 k = fix(argE(a, 0)); std::vector<int> w; for (int i = 0; i < (int)S->th.size(); ++i) if (S->th[i].stat == TBlocked && S->th[i].key == k) w.push_back(i);
    if (w.empty()) return; if (w.size() == 1) { S->th[w[0]].stat = TRun; return; }
    fork(w.size(), "wake", [&](State &o, u64 v) { o.th[w[v]].stat = TRun; afterCall(o, n); }); S->th[w[0]].stat = TRun;
  }
  BI(b_tself) { ret.e = X.C(S->cur, n.w); }
  BI(b_tdone) { u64 t = fix(argE(a, 0)); ret.e = X.C(t < S->th.size() && S->th[t].stat == TDone ? 1 : 0, n.w); }
  BI(b_hbrel) { if (S->th.size() < 2 && false) return; u64 k = fix(argE(a, 0)); auto &h = S->hb[k]; auto &v = T().vc; if (h.size() < v.size()) h.resize(v.size(), 0); for (size_t i = 0; i < v.size(); ++i) h[i] = std::max(h[i], v[i]); v[S->cur]++; }
  BI(b_hbacq) { u64 k = fix(argE(a, 0)); auto it = S->hb.find(k); if (it == S->hb.end()) return; auto &v = T().vc; if (v.size() < it->second.size()) v.resize(it->second.size(), 0); for (size_t i = 0; i < it->second.size(); ++i) v[i] = std::max(v[i], it->second[i]); }
  BI(b_tjoinhb) { u64 t = fix(argE(a, 0)); auto &v = T().vc; auto &o = S->th[t].vc; for (size_t i = 0; i < o.size(); ++i) { if (v.size() <= i) v.resize(i + 1, 0); v[i] = std::max(v[i], o[i]); } }
  BI(b_checkaccess) { u64 p = fix(argE(a, 0)), c = fix(argE(a, 1)); range(p, c, fix(argE(a, 2))); }
  // exceptions
  BI(b_excalloc) { auto o = alloc(fix(argE(a, 0)), OkExc); ret.e = X.C(o->base, 64); }
  BI(b_throw) { u64 o = fix(argE(a, 0)), ti = fix(argE(a, 1)), d = fix(argE(a, 2)); S->excs[o] = Exc{ti, d, 0}; T().uncaught++; unwind(o, false); throw Switched{}; }
  BI(b_begincatch) { u64 o = fix(argE(a, 0)); T().caught.push_back(o); if (T().uncaught > 0) T().uncaught--; ret.e = X.C(o + S->excs[o].adj, 64); }
  BI(b_endcatch) { if (!T().caught.empty()) T().caught.pop_back(); }
  BI(b_rethrow) { if (T().caught.empty()) bug("terminate", "rethrow without a current exception"); u64 o = T().caught.back(); T().uncaught++; unwind(o, false); throw Switched{}; }
  BI(b_uncaught) { ret.e = X.C(T().uncaught, n.w); }
  BI(b_curexc) { ret.e = X.C(T().caught.empty() ? 0 : T().caught.back(), 64); }
  BI(b_excobj) { ret = a[0]; }
  E word(u64 at) { ObjP *p = range(at, 8, false); E v = X.extract((*p)->b[at - (*p)->base], 0, 8); for (u64 i = 1; i < 8; ++i) v = X.concat((*p)->b[at - (*p)->base + i], v); return v; }
  // dynamic_cast to a class, without virtual bases
  BI(b_dyncast) {
    u64 o = fix(argE(a, 0)), want = fix(argE(a, 2)); u64 vt = fix(word(o)); int64_t top = (int64_t)fix(word(vt - 16)), adj = 0; u64 ti = fix(word(vt - 8));
    bool ok = tiMatch(ti, want, adj); ret.e = X.C(ok ? o + top + adj : 0, 64);
  }
  BI(b_rethrowobj) { u64 o = fix(argE(a, 0)); T().uncaught++; unwind(o, false); throw Switched{}; }
  BI(b_asm) { throw Unsupported{"inline assembly"}; }
  BI(b_unsup) { throw Unsupported{"external function " + (n.callee ? n.callee->getName().str() : "?")}; }
};

void Engine::regAll() {
  for (auto s : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) reg(s, &Engine::b_new);
  for (auto s : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) reg(s, &Engine::b_newarr);
  for (auto s : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"}) reg(s, &Engine::b_delete);
  for (auto s : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) reg(s, &Engine::b_deletearr);
  reg("vf_raw_new", &Engine::b_new); reg("vf_raw_newarr", &Engine::b_newarr); reg("vf_raw_delete", &Engine::b_delete); reg("vf_raw_deletearr", &Engine::b_deletearr);
  reg("malloc", &Engine::b_malloc); reg("calloc", &Engine::b_calloc); reg("realloc", &Engine::b_realloc); reg("free", &Engine::b_free);
  reg("memcpy", &Engine::b_memcpy); reg("memmove", &Engine::b_memmove); reg("memset", &Engine::b_memset); reg("memcmp", &Engine::b_memcmp); reg("bcmp", &Engine::b_memcmp);
  reg("abort", &Engine::b_abort); reg("_ZSt9terminatev", &Engine::b_terminate); reg("__assert_fail", &Engine::b_assertfail); reg("__cxa_pure_virtual", &Engine::b_purevirt); reg("__cxa_call_unexpected", &Engine::b_terminate);
  reg("exit", &Engine::b_exit); reg("_exit", &Engine::b_exit);
  reg("__cxa_atexit", &Engine::b_nop); reg("atexit", &Engine::b_nop); reg("__cxa_thread_atexit", &Engine::b_nop);
  reg("vf_sym", &Engine::b_sym); reg("vf_choose", &Engine::b_choose); reg("vf_assume_", &Engine::b_assume); reg("vf_assert_", &Engine::b_assert); reg("vf_reach", &Engine::b_reach); reg("vf_observe", &Engine::b_observe);
  reg("vf_fix", &Engine::b_fix); reg("vf_is_symbolic", &Engine::b_issym); reg("vf_live_allocs", &Engine::b_live); reg("vf_param", &Engine::b_param); reg("vf_is_native", &Engine::b_native); reg("vf_end_path", &Engine::b_endpath); reg("vf_print", &Engine::b_print); reg("vf_strtod", &Engine::b_strtod); reg("vf_fail", &Engine::b_fail); reg("vf_bound_note", &Engine::b_note);
  reg("vf_thread_create", &Engine::b_tcreate); reg("vf_sched", &Engine::b_sched); reg("vf_block", &Engine::b_block); reg("vf_wake_all", &Engine::b_wakeall); reg("vf_wake_one", &Engine::b_wakeone); reg("vf_thread_self", &Engine::b_tself); reg("vf_thread_done", &Engine::b_tdone);
  reg("vf_hb_release", &Engine::b_hbrel); reg("vf_hb_acquire", &Engine::b_hbacq); reg("vf_thread_join_hb", &Engine::b_tjoinhb); reg("vf_check_access", &Engine::b_checkaccess);
  reg("__dynamic_cast", &Engine::b_dyncast); reg("__cxa_allocate_exception", &Engine::b_excalloc); reg("__cxa_free_exception", &Engine::b_nop); reg("__cxa_throw", &Engine::b_throw); reg("__cxa_begin_catch", &Engine::b_begincatch); reg("__cxa_end_catch", &Engine::b_endcatch); reg("__cxa_rethrow", &Engine::b_rethrow); reg("__cxa_get_exception_ptr", &Engine::b_excobj);
  reg("_ZSt18uncaught_exceptionv", &Engine::b_uncaught); reg("_ZSt19uncaught_exceptionsv", &Engine::b_uncaught); reg("vf_current_exception", &Engine::b_curexc); reg("vf_rethrow_object", &Engine::b_rethrowobj);
  reg("__vs_inline_asm", &Engine::b_asm);
}

bool Engine::intrinsic(const IInst &n) {
  using namespace llvm;
  auto A = [&](unsigned i) { return get(n.ops[i]).e; }; Val r;
  auto ovf = [&](unsigned op, bool sgn) { E a = A(0), b = A(1); E v = X.bin(op == Instruction::Add ? K::Add : op == Instruction::Sub ? K::Sub : K::Mul, a, b); Val x, y; x.e = v; y.e = X.notb(sgn ? noSOvf(op, a, b) : noUOvf(op, a, b)); r = aggOf({x, y}); };
  switch (n.iid) {
  case Intrinsic::not_intrinsic: return false;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 d = fix(A(0)), s = fix(A(1)), c = fix(A(2)); if (c && d != s && d < s + c && s < d + c) bug("overlap", "memcpy with overlapping ranges"); copyBytes(d, s, c); break; }
  case Intrinsic::memmove: copyBytes(fix(A(0)), fix(A(1)), fix(A(2))); break;
  case Intrinsic::memset: { u64 d = fix(A(0)), c = fix(A(2)); E v = A(1); if (c) { ObjP *p = range(d, c, true); Obj &o = writable(p); for (u64 i = 0; i < c; ++i) o.b[d - o.base + i] = v; } break; }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { u64 p = fix(A(1)); auto it = S->mem.find(p); if (it != S->mem.end() && it->second->kind == OkStack) { Obj &o = writable(&it->second); o.alive = n.iid == Intrinsic::lifetime_start; std::fill(o.b.begin(), o.b.end(), nullptr); o.race.clear(); } break; }
  case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: break;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: {
    r = get(n.ops[0]);
    if (n.iid == Intrinsic::threadlocal_address && S->cur != 0) { u64 p = r.e->v; auto &tl = T().tls; auto it = tl.find(p); if (it == tl.end()) { auto *g = tlsByAddr.at(p); auto *src = find(p); auto o = alloc((*src)->size, OkTls, true); if (g->hasInitializer()) initBytes(o->b, 0, g->getInitializer()); it = tl.emplace(p, o->base).first; } r.e = X.C(it->second, 64); }
    break; }
  case Intrinsic::objectsize: r.e = X.C(A(1)->v ? 0 : ~0ull, n.w); break;
  case Intrinsic::is_constant: r.e = X.C(0, 1); break;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: bug("trap", "trap reached"); 
  case Intrinsic::eh_typeid_for: r.e = X.C(selOf(A(0)->v), 32); break;
  case Intrinsic::umax: { E a = A(0), b = A(1); r.e = X.ite(X.bin(K::Ult, a, b), b, a); break; }
  case Intrinsic::umin: { E a = A(0), b = A(1); r.e = X.ite(X.bin(K::Ult, a, b), a, b); break; }
  case Intrinsic::smax: { E a = A(0), b = A(1); r.e = X.ite(X.bin(K::Slt, a, b), b, a); break; }
  case Intrinsic::smin: { E a = A(0), b = A(1); r.e = X.ite(X.bin(K::Slt, a, b), a, b); break; }
  case Intrinsic::abs: { E a = A(0); r.e = X.ite(X.bin(K::Slt, a, X.C(0, a->w)), X.bin(K::Sub, X.C(0, a->w), a), a); break; }
  case Intrinsic::usub_sat: { E a = A(0), b = A(1); r.e = X.ite(X.bin(K::Ult, a, b), X.C(0, a->w), X.bin(K::Sub, a, b)); break; }
  case Intrinsic::uadd_sat: { E a = A(0), b = A(1); r.e = X.ite(noUOvf(Instruction::Add, a, b), X.bin(K::Add, a, b), X.C(~0ull, a->w)); break; }
  case Intrinsic::uadd_with_overflow: ovf(Instruction::Add, false); break;
  case Intrinsic::usub_with_overflow: ovf(Instruction::Sub, false); break;
  case Intrinsic::umul_with_overflow: ovf(Instruction::Mul, false); break;
  case Intrinsic::sadd_with_overflow: ovf(Instruction::Add, true); break;
  case Intrinsic::ssub_with_overflow: ovf(Instruction::Sub, true); break;
  case Intrinsic::smul_with_overflow: ovf(Instruction::Mul, true); break;
  case Intrinsic::ctpop: { E a = A(0); E s = X.C(0, a->w); for (unsigned i = 0; i < a->w; ++i) s = X.bin(K::Add, s, X.zext(X.extract(a, i, 1), a->w)); r.e = s; break; }
  case Intrinsic::ctlz: { E a = A(0); E s = X.C(a->w, a->w); for (unsigned i = 0; i < a->w; ++i) s = X.ite(X.extract(a, i, 1), X.C(a->w - 1 - i, a->w), s); r.e = s; break; }
  case Intrinsic::cttz: { E a = A(0); E s = X.C(a->w, a->w); for (int i = a->w - 1; i >= 0; --i) s = X.ite(X.extract(a, i, 1), X.C(i, a->w), s); r.e = s; break; }
  case Intrinsic::bswap: { E a = A(0); E s = nullptr; for (unsigned i = 0; i < a->w; i += 8) { E b = X.extract(a, i, 8); s = s ? X.concat(s, b) : b; } r.e = s; break; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E a = A(0), b = A(1), c = A(2); unsigned w = a->w; E m = X.bin(K::URem, c, X.C(w, w)); E inv = X.bin(K::Sub, X.C(w, w), m); E z = X.bin(K::Eq, m, X.C(0, w));
    if (n.iid == Intrinsic::fshl) r.e = X.ite(z, a, X.bin(K::Or, X.bin(K::Shl, a, m), X.bin(K::LShr, b, inv))); else r.e = X.ite(z, b, X.bin(K::Or, X.bin(K::Shl, a, inv), X.bin(K::LShr, b, m))); break; }
  case Intrinsic::ptrmask: r.e = X.bin(K::And, A(0), A(1)); break;
  case Intrinsic::stacksave: r.e = X.C(0, 64); break; case Intrinsic::stackrestore: break;
  case Intrinsic::returnaddress: case Intrinsic::frameaddress: r.e = X.C(0, 64); break;
  case Intrinsic::vastart: { u64 p = fix(A(0)); storeE(X.C(p, 64), X.C(48, 32), 4); storeE(X.C(p + 4, 64), X.C(176, 32), 4); storeE(X.C(p + 8, 64), X.C(F().va, 64), 8); storeE(X.C(p + 16, 64), X.C(0, 64), 8); break; }
  case Intrinsic::vaend: break; case Intrinsic::vacopy: copyBytes(fix(A(0)), fix(A(1)), 24); break;
  case Intrinsic::fabs: r.e = fpE(fabs(fpVal(A(0))), n.w); break; case Intrinsic::floor: r.e = fpE(floor(fpVal(A(0))), n.w); break; case Intrinsic::ceil: r.e = fpE(ceil(fpVal(A(0))), n.w); break;
  default: throw Unsupported{"intrinsic " + n.callee->getName().str()};
  }
  if (n.dest >= 0) setDest(n, r);
  finishCall(n);
  return true;
}

void Engine::execCall(const IInst &n) {
  if (n.iid != llvm::Intrinsic::not_intrinsic) { if (intrinsic(n)) return; }
  std::vector<Val> args; args.reserve(n.nargs); for (unsigned i = 0; i < n.nargs; ++i) args.push_back(get(n.ops[i]));
  int b = n.builtin; const llvm::Function *Fn = n.callee;
  if (b < 0 && !Fn) {
    E fp = get(n.ops[n.nargs]).e; u64 a = fix(fp); auto it = fnAt.find(a);
    if (it == fnAt.end()) { ObjP *q = find(a); (void)q; bug(a < 4096 ? "null-deref" : "invalid-call", "call through " + describe(a)); }
    Fn = it->second; auto bi = bidx.find(Fn->getName().str()); if (bi != bidx.end() && !replaced(Fn)) b = bi->second;
  }
  if (b >= 0) {
    Val ret; 
    try { (this->*builtins[b])(n, args, ret); } catch (Switched &) { return; } catch (Pushed &) { return; }
    if (n.dest >= 0) { if (!ret.e && !ret.g) ret = fresh(n.ty); setDest(n, ret); }
    finishCall(n); return;
  }
  pushFrame(Fn, args);
}

bool Engine::step() {
  using namespace llvm;
  Frame &f = F(); const IInst &n = f.bb->insts[f.ip]; curI = &n; S->steps++; totalSteps++;
  auto A = [&](unsigned i) { return get(n.ops[i]).e; };
  auto arith = [&](K k) {
    E a = A(0), b = A(1);
    if (!a || !b) throw Unsupported{"vector arithmetic"};
    if (O.overflow && (k == K::Add || k == K::Sub || k == K::Mul) && !(a->isConst() && b->isConst() && false)) {
      auto *o = dyn_cast<OverflowingBinaryOperator>(n.I); if (o && o->hasNoSignedWrap()) require(noSOvf(n.op, a, b), "signed-overflow", "signed integer overflow"); }
    if (k == K::SDiv || k == K::SRem || k == K::UDiv || k == K::URem) {
      require(X.notb(X.bin(K::Eq, b, X.C(0, b->w))), "div-by-zero", "division by zero");
      if ((k == K::SDiv || k == K::SRem)) require(X.notb(X.andb(X.bin(K::Eq, b, X.C(~0ull, b->w)), X.bin(K::Eq, a, X.C(1ull << (a->w - 1), a->w)))), "div-overflow", "signed division overflow");
    }
    if (O.shiftCheck && (k == K::Shl || k == K::LShr || k == K::AShr)) require(X.bin(K::Ult, b, X.C(b->w, b->w > 7 ? b->w : b->w)), "shift", "shift amount out of range");
    Val r; r.e = X.bin(k, a, b); setDest(n, r); f.ip++; };
  switch (n.op) {
  case Instruction::Add: arith(K::Add); break; case Instruction::Sub: arith(K::Sub); break; case Instruction::Mul: arith(K::Mul); break;
  case Instruction::UDiv: arith(K::UDiv); break; case Instruction::SDiv: arith(K::SDiv); break; case Instruction::URem: arith(K::URem); break; case Instruction::SRem: arith(K::SRem); break;
  case Instruction::And: arith(K::And); break; case Instruction::Or: arith(K::Or); break; case Instruction::Xor: arith(K::Xor); break;
  case Instruction::Shl: arith(K::Shl); break; case Instruction::LShr: arith(K::LShr); break; case Instruction::AShr: arith(K::AShr); break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: setDest(n, fpBin(n.op, get(n.ops[0]), get(n.ops[1]), n.w)); f.ip++; break;
  case Instruction::FNeg: { Val r; E a = A(0); r.e = X.bin(K::Xor, a, X.C(1ull << (a->w - 1), a->w)); setDest(n, r); f.ip++; break; }
  case Instruction::FCmp: { double x = fpVal(A(0)), y = fpVal(A(1)); bool un = x != x || y != y, r; auto p = cast<FCmpInst>(n.I)->getPredicate();
    switch (p) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; default: throw Unsupported{"fcmp"}; }
    Val v; v.e = X.C(r, 1); setDest(n, v); f.ip++; break; }
  case Instruction::ICmp: { Val r; E a = A(0), b = A(1); if (!a || !b) throw Unsupported{"vector compare"}; r.e = icmp(cast<ICmpInst>(n.I)->getPredicate(), a, b); setDest(n, r); f.ip++; break; }
  case Instruction::Trunc: { Val r; r.e = X.extract(A(0), 0, n.w); setDest(n, r); f.ip++; break; }
  case Instruction::ZExt: { Val r; r.e = X.zext(A(0), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::SExt: { Val r; r.e = X.sext(A(0), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val r; E a = A(0); r.e = a->w > n.w ? X.extract(a, 0, n.w) : X.zext(a, n.w); setDest(n, r); f.ip++; break; }
  case Instruction::BitCast: case Instruction::Freeze: { Val v = get(n.ops[0]); setDest(n, v); f.ip++; break; }
  case Instruction::UIToFP: { Val r; E a = A(0); if (!a->isConst()) a = X.C(fix(a), a->w); r.e = fpE((double)a->v, n.w); setDest(n, r); f.ip++; break; }
  case Instruction::SIToFP: { Val r; E a = A(0); if (!a->isConst()) a = X.C(fix(a), a->w); r.e = fpE((double)sx(a->v, a->w), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::FPToUI: { Val r; r.e = X.C((u64)fpVal(A(0)), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::FPToSI: { Val r; r.e = X.C((u64)(int64_t)fpVal(A(0)), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::FPExt: if (E x = A(0); !x->isConst() && x->w == 32 && n.w == 64) { // exact on bits (subnormal values are out of reach)
      E ex = X.extract(x, 23, 8), m = X.extract(x, 0, 23), z = X.bin(K::Eq, ex, X.C(0, 8)); if (branch(X.andb(z, X.notb(X.bin(K::Eq, m, X.C(0, 23)))))) throw Unsupported{"symbolic subnormal number"};
      E e2 = X.ite(z, X.C(0, 11), X.ite(X.bin(K::Eq, ex, X.C(255, 8)), X.C(2047, 11), X.bin(K::Add, X.zext(ex, 11), X.C(896, 11))));
      Val r; r.e = X.concat(X.concat(X.extract(x, 31, 1), e2), X.concat(m, X.C(0, 29))); setDest(n, r); f.ip++; break; }
    [[fallthrough]];
  case Instruction::FPTrunc: if (E x = A(0); !x->isConst() && x->w == 64 && n.w == 32) { // to the nearest value
      E ex = X.extract(x, 52, 11), m = X.extract(x, 0, 52), sg = X.extract(x, 63, 1), nz = X.notb(X.bin(K::Eq, X.concat(ex, m), X.C(0, 63)));
      if (branch(X.andb(X.bin(K::Ult, ex, X.C(897, 11)), nz))) throw Unsupported{"symbolic subnormal number"};
      E q = X.bin(K::Add, X.bin(K::Add, X.concat(X.C(0, 1), X.concat(ex, m)), X.C(0xfffffffull, 64)), X.zext(X.extract(m, 29, 1), 64)); // a carry goes to the exponent
      E e2 = X.extract(q, 52, 11), f2 = X.concat(X.extract(X.bin(K::Sub, e2, X.C(896, 11)), 0, 8), X.extract(q, 29, 23));
      E isnan = X.andb(X.bin(K::Eq, ex, X.C(2047, 11)), X.notb(X.bin(K::Eq, m, X.C(0, 52))));
      f2 = X.ite(X.bin(K::Ult, X.C(1150, 11), e2), X.C(0x7f800000ull, 31), f2); f2 = X.ite(isnan, X.C(0x7fc00000ull, 31), f2); f2 = X.ite(nz, f2, X.C(0, 31));
      Val r; r.e = X.concat(sg, f2); setDest(n, r); f.ip++; break; }
    { Val r; r.e = fpE(fpVal(A(0)), n.w); setDest(n, r); f.ip++; break; }
  case Instruction::Select: { Val c = get(n.ops[0]), x = get(n.ops[1]), y = get(n.ops[2]); if (!c.e) throw Unsupported{"vector select"};
    if (c.e->isConst()) setDest(n, c.e->v ? x : y); else if (x.e) { Val r; r.e = X.ite(c.e, x.e, y.e); setDest(n, r); } else { std::function<Val(Val, Val)> m = [&](Val p, Val q) { if (p.e) { Val r; r.e = X.ite(c.e, p.e, q.e); return r; } std::vector<Val> v; for (size_t i = 0; i < p.g->v.size(); ++i) v.push_back(m(p.g->v[i], q.g->v[i])); return aggOf(std::move(v)); }; setDest(n, m(x, y)); }
    f.ip++; break; }
  case Instruction::GetElementPtr: { E p = A(0); if (!p) throw Unsupported{"vector gep"}; if (n.goff) p = X.bin(K::Add, p, X.C((u64)n.goff, 64)); for (auto &g : n.gidx) { E i = A(g.first); p = X.bin(K::Add, p, X.bin(K::Mul, X.sext(i, 64), X.C((u64)g.second, 64))); } Val r; r.e = p; setDest(n, r); f.ip++; break; }
  case Instruction::Alloca: { auto *ai = cast<AllocaInst>(n.I); u64 c = fix(A(0)); u64 sz = c * DL->getTypeAllocSize(ai->getAllocatedType()); auto o = alloc(sz, OkStack); F().allocas.push_back(o->base); Val r; r.e = X.C(o->base, 64); setDest(n, r); F().ip++; break; }
  case Instruction::Load: { auto *li = cast<LoadInst>(n.I); bool at = li->isAtomic(); Val v = loadT(A(0), n.ty, n.vol || at); if (at && S->th.size() > 1) { u64 k = fix(A(0)); auto it = S->hb.find(k); if (it != S->hb.end()) { auto &vc = T().vc; if (vc.size() < it->second.size()) vc.resize(it->second.size(), 0); for (size_t i = 0; i < it->second.size(); ++i) vc[i] = std::max(vc[i], it->second[i]); } } setDest(n, v); F().ip++; break; }
  case Instruction::Store: { auto *si = cast<StoreInst>(n.I); Val v = get(n.ops[0]); bool at = si->isAtomic(); if (at && S->th.size() > 1) { u64 k = fix(A(1)); auto &h = S->hb[k]; auto &vc = T().vc; if (h.size() < vc.size()) h.resize(vc.size(), 0); for (size_t i = 0; i < vc.size(); ++i) h[i] = std::max(h[i], vc[i]); vc[S->cur]++; } storeT(A(1), v, si->getValueOperand()->getType(), n.vol || at); F().ip++; break; }
  case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(n.I); E p = A(0), v = A(1); unsigned sz = v->w / 8; if (!sz) sz = 1; E o = loadE(p, sz, true); o = X.extract(o, 0, v->w); E r;
    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = X.bin(K::Add, o, v); break; case AtomicRMWInst::Sub: r = X.bin(K::Sub, o, v); break; case AtomicRMWInst::And: r = X.bin(K::And, o, v); break; case AtomicRMWInst::Or: r = X.bin(K::Or, o, v); break; case AtomicRMWInst::Xor: r = X.bin(K::Xor, o, v); break; default: throw Unsupported{"atomicrmw"}; }
    storeE(p, X.zext(r, sz * 8), sz, true); if (S->th.size() > 1) { u64 k = fix(p); auto &h = S->hb[k]; auto &vc = T().vc; if (h.size() < vc.size()) h.resize(vc.size(), 0); for (size_t i = 0; i < vc.size(); ++i) h[i] = vc[i] = std::max(h[i], vc[i]); vc[S->cur]++; } Val d; d.e = o; setDest(n, d); F().ip++; break; }
  case Instruction::AtomicCmpXchg: { E p = A(0), c = A(1), v = A(2); unsigned sz = std::max(1u, v->w / 8u); E o = X.extract(loadE(p, sz, true), 0, v->w); E eq = X.bin(K::Eq, o, c); storeE(p, X.zext(X.ite(eq, v, o), sz * 8), sz, true); if (S->th.size() > 1) { u64 k = fix(p); auto &h = S->hb[k]; auto &vc = T().vc; if (h.size() < vc.size()) h.resize(vc.size(), 0); for (size_t i = 0; i < vc.size(); ++i) h[i] = vc[i] = std::max(h[i], vc[i]); vc[S->cur]++; } Val x, y; x.e = o; y.e = eq; setDest(n, aggOf({x, y})); F().ip++; break; }
  case Instruction::Fence: f.ip++; break;
  case Instruction::ExtractValue: { Val v = get(n.ops[0]); for (unsigned i : cast<ExtractValueInst>(n.I)->getIndices()) v = v.g->v[i]; setDest(n, v); f.ip++; break; }
  case Instruction::InsertValue: { Val a = get(n.ops[0]), v = get(n.ops[1]); auto idx = cast<InsertValueInst>(n.I)->getIndices(); std::function<Val(Val, unsigned)> m = [&](Val x, unsigned d) { if (d == idx.size()) return v; std::vector<Val> t = x.g->v; t[idx[d]] = m(t[idx[d]], d + 1); return aggOf(std::move(t)); }; setDest(n, m(a, 0)); f.ip++; break; }
  case Instruction::Br: {
    if (!n.s1) { jump(n.s0); break; }
    E c = A(0); bool t = branch(c, [&](State &o) { State *sv = S; S = &o; jump(n.s1); S = sv; });
    jump(t ? n.s0 : n.s1); break; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(n.I); E c = A(0);
    if (c->isConst()) { auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c->v); jump(f.fn->m[sw->findCaseValue(ci)->getCaseSuccessor()]); break; }
    // group cases by successor
    std::vector<std::pair<BBInfo *, E>> g; E any = X.F();
    for (auto &cs : sw->cases()) { E eq = X.bin(K::Eq, c, X.C(cs.getCaseValue()->getZExtValue(), c->w)); BBInfo *b = f.fn->m[cs.getCaseSuccessor()]; any = X.orb(any, eq); bool fd = false; for (auto &x : g) if (x.first == b) { x.second = X.orb(x.second, eq); fd = true; break; } if (!fd) g.push_back({b, eq}); }
    BBInfo *def = f.fn->m[sw->getDefaultDest()];
    { bool fd = false; E d = X.notb(any); for (auto &x : g) if (x.first == def) { x.second = X.orb(x.second, d); fd = true; break; } if (!fd) g.push_back({def, d}); }
    bool done = false;
    for (size_t i = 0; i + 1 < g.size() && !done; ++i) {
      // current takes g[i] or goes on; the queued state takes the rest by retrying
      if (branch(g[i].second, [&](State &) {})) { jump(g[i].first); done = true; }
    }
    if (!done) jump(g.back().first);
    break; }
  case Instruction::Ret: {
    Val v; bool has = !n.ops.empty(); if (has) v = get(n.ops[0]); dropFrame();
    if (T().st.empty()) {
      T().stat = TDone; if (S->cur == 0) return false;
      // thread finished: wake joiners (key = 0x7000 + tid), pick another thread
      for (auto &t : S->th) if (t.stat == TBlocked && t.key == (u64)(0x7000 + S->cur)) t.stat = TRun;
      auto en = enabled(); if (en.empty()) { S->cur = 0; deadlock(); }
      if (en.size() > 1) fork(en.size(), "sched", [&](State &o, u64 x) { o.cur = en[x]; });
      S->cur = en[0]; break;
    }
    const IInst &ci = F().bb->insts[F().ip]; if (has) setDest(ci, v); finishCall(ci); break; }
  case Instruction::Call: case Instruction::Invoke: execCall(n); break;
  case Instruction::Resume: { Val v = get(n.ops[0]); unwind(v.g->v[0].e->v, true); break; }
  case Instruction::Unreachable: bug("unreachable", "control reaches the end of a non-void function or code marked unreachable");
  case Instruction::VAArg: throw Unsupported{"va_arg"};
  default: throw Unsupported{std::string("instruction ") + n.I->getOpcodeName()};
  }
  return true;
}

static Engine *G;
void Engine::run() {
  t0 = std::chrono::steady_clock::now(); u64 tick = 0;
  while (!work.empty() && !stop) {
    SP cur = std::move(work.back()); work.pop_back(); S = cur.get();
    try {
      for (;;) {
        if ((++tick & 1023) == 0) { if (elapsed() > O.maxTime) { stop = true; stopReason = "time limit"; break; } 
          if ((tick & 0xfffff) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss / 1048576.0 > O.memLimitGB) { stop = true; stopReason = "memory limit"; break; } } }
        if (S->steps > O.maxSteps) bug("step-limit", "no termination within " + std::to_string(O.maxSteps) + " instructions");
        if (!step()) break;
      }
      if (stop) break;
      paths++;
      takeSample();
      if (paths >= O.maxPaths) { stop = true; stopReason = "path limit"; }
    } catch (Kill &) { killed++; }
    catch (Exit &x) { paths++; if (x.sampled) takeSample(); }
    catch (Bug &b) { if (b.kind == "step-limit") truncated++; finding(b.kind, b.msg); errPaths++; }
    catch (Unsupported &u) { incomplete("unsupported: " + u.what); if (O.verbose) fprintf(stderr, "UNSUPPORTED %s\n%s\n", u.what.c_str(), stackStr().c_str()); errPaths++; if (incCount.begin()->second > 2000) { stop = true; stopReason = "unsupported"; } }
    S = nullptr;
  }
}

static std::string jstr(const std::string &s) { return "\"" + Engine::esc(s) + "\""; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--max-time") O.maxTime = std::stod(nx()); else if (a == "--max-steps") O.maxSteps = std::stoull(nx()); else if (a == "--max-paths") O.maxPaths = std::stoull(nx()); else if (a == "--max-depth") O.maxDepth = std::stoul(nx());
    else if (a == "--seed") O.seed = std::stoul(nx()); else if (a == "--samples") O.samples = std::stoul(nx()); else if (a == "--max-findings") O.maxFindings = std::stoul(nx()); else if (a == "--preempt") O.preempt = std::stoi(nx()); else if (a == "--overflow") O.overflow = true; else if (a == "--no-races") O.races = false; else if (a == "--no-uninit") O.uninit = false; else if (a == "-v") O.verbose = true; else if (a == "--src-root") O.srcRoot = nx(); else if (a == "--z3-timeout") SOL.timeoutMs = std::stoul(nx()); else if (a == "--max-concretize") O.maxConcretize = std::stoul(nx()); else if (a == "--mem") O.memLimitGB = std::stod(nx());
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); O.params[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
    else O.file = a;
  }
  Engine en; G = &en; en.rng.seed(O.seed); llvm::SMDiagnostic err; en.M = llvm::parseIRFile(O.file, err, en.ctx); if (!en.M) { err.print("vsym", llvm::errs()); return 3; }
  en.DL = &en.M->getDataLayout(); en.regAll();
  auto *mainF = en.M->getFunction(O.entry); if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
  auto st = std::make_unique<State>(); en.setup(*st); Thread t; t.vc = {1}; st->th.push_back(std::move(t)); en.S = st.get();
  std::vector<Val> no; 
  try {
    // frames are pushed so that constructors run first
    en.pushFrame(mainF, no);
    if (auto *gc = en.M->getGlobalVariable("llvm.global_ctors")) if (auto *arr = llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, const llvm::Function *>> cs; for (auto &o : arr->operands()) { auto *s = llvm::cast<llvm::ConstantStruct>(o); if (auto *f = llvm::dyn_cast<llvm::Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({llvm::cast<llvm::ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
      // run each constructor to completion before main
      auto main_st = std::move(st->th[0].st); st->th[0].st.clear();
      for (auto &c : cs) { en.pushFrame(c.second, no); while (en.step()) {} st->th[0].stat = TRun; }
      st->th[0].st = std::move(main_st);
    }
  } catch (Unsupported &u) { fprintf(stderr, "initialisation: unsupported %s\n%s", u.what.c_str(), en.stackStr().c_str()); return 3; } catch (Engine::Bug &b) { fprintf(stderr, "initialisation: %s %s\n%s", b.kind.c_str(), b.msg.c_str(), en.stackStr().c_str()); return 3; }
  en.work.push_back(std::move(st)); en.run();
  // report
  std::set<std::string> fns, repoFns;
  for (auto *b : en.allBB) if (b->seen) for (auto &i : b->insts) if (auto *d = i.I->getDebugLoc().get()) for (const llvm::DILocation *x = d; x; x = x->getInlinedAt()) if (auto *sp = x->getScope()->getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; if (f.find(O.srcRoot) == 0) { std::string nm = llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); if (nm.size() > 150) nm = nm.substr(0, 147) + "..."; repoFns.insert(f.substr(O.srcRoot.size()) + ":" + nm); } }
  FILE *o = O.out.empty() ? stdout : fopen(O.out.c_str(), "w"); if (!o) return 3;
  std::string s = "{"; char buf[2000];
  snprintf(buf, sizeof buf, "\"entry\":%s,\"paths\":%llu,\"assumed_away\":%llu,\"error_paths\":%llu,\"pending\":%zu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"symbolic_branches\":%llu,\"max_frames\":%llu,\"sched_points\":%llu,\"wall\":%.3f,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"z3_time\":%.3f,\"z3_max_query\":%.3f,\"cache_hits\":%llu,\"byte_domain_decisions\":%llu,\"exprs\":%zu,\"stopped\":%s,",
           jstr(O.entry).c_str(), (unsigned long long)en.paths, (unsigned long long)en.killed, (unsigned long long)en.errPaths, en.work.size(), (unsigned long long)en.totalSteps, (unsigned long long)en.forks, (unsigned long long)en.asserts, (unsigned long long)en.assertZ3, (unsigned long long)en.branchesSym, (unsigned long long)en.maxFrames, (unsigned long long)en.schedPoints, en.elapsed(), (unsigned long long)SOL.st.z3Queries, (unsigned long long)SOL.st.z3Sat, (unsigned long long)SOL.st.z3Unsat, (unsigned long long)SOL.st.z3Unknown, SOL.st.z3Time, SOL.st.maxQuery, (unsigned long long)SOL.st.cacheHits, (unsigned long long)SOL.st.ttDecided, X.size(), jstr(en.stopReason).c_str());
  s += buf;
  s += "\"findings\":["; bool f = true;
  for (auto &k : en.findings) { auto &x = k.second; if (!f) s += ","; f = false; s += "{\"kind\":" + jstr(x.kind) + ",\"msg\":" + jstr(x.msg) + ",\"loc\":" + jstr(x.loc) + ",\"count\":" + std::to_string(x.count) + ",\"stack\":" + jstr(x.stack) + ",\"inputs\":" + x.inputs + ",\"obs\":" + x.obs + "}"; }
  s += "],\"samples\":["; f = true; for (auto &x : en.samples) { if (!f) s += ","; f = false; s += x; }
  s += "],\"reach\":{"; f = true; for (auto &x : en.reach) { if (!f) s += ","; f = false; s += jstr(x.first) + ":" + std::to_string(x.second); }
  s += "},\"incomplete\":["; f = true; for (auto &x : en.incompletes) { if (!f) s += ","; f = false; s += jstr(x); }
  s += "],\"notes\":["; f = true; for (auto &x : en.assumptions) { if (!f) s += ","; f = false; s += jstr(x); }
  s += "],\"functions\":["; f = true; for (auto &x : repoFns) { if (!f) s += ","; f = false; s += jstr(x); }
  s += "]}\n"; fputs(s.c_str(), o); if (o != stdout) fclose(o);
  _exit(0);
}
