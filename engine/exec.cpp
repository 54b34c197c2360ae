// Symbolic executor for LLVM IR (clang-18 bitcode) over the QF_BV decision procedure in solver.h.
#include "solver.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <cmath>
#include <sys/resource.h>
#include <pthread.h>
#include <signal.h>
using namespace sx;
using llvm::BasicBlock; using llvm::Instruction; using llvm::Function; using llvm::Value; using llvm::Type;
using llvm::dyn_cast; using llvm::isa; using llvm::cast;

struct EngineError { std::string msg; };
[[noreturn]] static void fail(const std::string &m) { throw EngineError{m}; }

// ------------------------------------------------------------------ options / statistics
static bool optUbMask = false;            // oversized shifts: mask like x86 instead of arbitrary
static double optTime = 600;              // seconds per entry
static uint64_t optMemMb = 3500;             // resident memory of one run
static bool optContracts = false;
static uint64_t optMaxSteps = 20000000;   // instructions per path
static unsigned optMaxViol = 4, optWitness = 8;
static bool optVerbose = false, optNoSumm = false;
static double tStart;

static Ctx C;
static Solver *S;
static const llvm::DataLayout *DL;
static llvm::Module *M;

struct Val { E e = nullptr; std::shared_ptr<const std::vector<Val>> a; };

// ------------------------------------------------------------------ memory
struct Cell { E e; uint8_t idx; };
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_NEW, K_NEWARR, K_OPAQUE, K_EXC };
struct Obj { uint32_t id; uint64_t size; Kind kind; bool ro, frozen = false; std::vector<Cell> cells; };
using ObjP = std::shared_ptr<Obj>;
static const unsigned PG = 32;
struct Page { ObjP o[PG]; };
struct Mem {
  std::vector<std::shared_ptr<Page>> pages; uint32_t nextId = 1;
  ObjP get(uint32_t id) const { size_t p = id / PG; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[id % PG]; }
  void put(uint32_t id, ObjP o) {
    size_t p = id / PG; if (p >= pages.size()) pages.resize(p + 1);
    if (!pages[p]) pages[p] = std::make_shared<Page>(); else if (pages[p].use_count() > 1) pages[p] = std::make_shared<Page>(*pages[p]);
    pages[p]->o[id % PG] = o;
  }
  Obj *writable(uint32_t id) {
    ObjP o = get(id); if (!o) return nullptr;
    size_t p = id / PG;
    if (pages[p].use_count() > 1) pages[p] = std::make_shared<Page>(*pages[p]);
    ObjP &slot = pages[p]->o[id % PG]; o.reset();
    if (slot.use_count() > 1) slot = std::make_shared<Obj>(*slot);
    return slot.get();
  }
};
static uint64_t addrOf(uint32_t id) { return (uint64_t)id << 32; }

// ------------------------------------------------------------------ function info
struct FInfo {
  Function *f; unsigned nregs = 0; std::string name;
  std::unordered_map<const Value *, unsigned> idx;
  std::vector<const Value *> byIdx;
  std::unordered_map<const BasicBlock *, const BasicBlock *> ipdom;  // null = exit
  bool pdomDone = false, liveDone = false;
  std::unordered_map<const BasicBlock *, std::vector<bool>> live;    // live after phis
  std::vector<std::vector<int>> opIdx;
  FInfo(Function *fn) : f(fn) {
    name = fn->getName().str();
    for (auto &a : fn->args()) { idx[&a] = nregs++; byIdx.push_back(&a); }
    for (auto &bb : *fn) for (auto &i : bb) if (!i.getType()->isVoidTy()) { idx[&i] = nregs++; byIdx.push_back(&i); }
  }
  void computePdom() {
    if (pdomDone) return; pdomDone = true;
    std::vector<const BasicBlock *> bbs; std::unordered_map<const BasicBlock *, int> num;
    for (auto &b : *f) { num[&b] = bbs.size(); bbs.push_back(&b); }
    int n = bbs.size(), EX = n; 
    std::vector<std::vector<int>> succ(n + 1), pred(n + 1);
    std::vector<char> good(n, 0); std::vector<int> wl;
    for (int i = 0; i < n; i++) { if (isa<llvm::ReturnInst>(bbs[i]->getTerminator())) { succ[i].push_back(EX); good[i] = 1; wl.push_back(i); } 
      for (auto *s : llvm::successors(bbs[i])) { if (s->isLandingPad()) continue; pred[num[s]].push_back(i); } }
    while (!wl.empty()) { int x = wl.back(); wl.pop_back(); for (int p : pred[x]) if (!good[p]) { good[p] = 1; wl.push_back(p); } }
    for (int i = 0; i < n; i++) if (good[i]) for (auto *s : llvm::successors(bbs[i])) { if (s->isLandingPad()) continue; if (good[num[s]]) succ[i].push_back(num[s]); }
    // iterative set-based postdominators via bitsets (functions are small)
    // order: reverse postorder on reversed graph
    std::vector<std::vector<int>> rp(n + 1); for (int i = 0; i < n; i++) for (int s : succ[i]) rp[s].push_back(i);
    std::vector<int> order, st{EX}; std::vector<int> po(n + 1, -1); std::vector<char> seen(n + 1, 0);
    { std::vector<std::pair<int, size_t>> stk; stk.push_back({EX, 0}); seen[EX] = 1;
      while (!stk.empty()) { auto &t = stk.back(); if (t.second < rp[t.first].size()) { int p = rp[t.first][t.second++]; if (!seen[p]) { seen[p] = 1; stk.push_back({p, 0}); } } else { po[t.first] = order.size(); order.push_back(t.first); stk.pop_back(); } } }
    std::vector<int> idom(n + 1, -1); idom[EX] = EX;
    bool ch = true;
    while (ch) { ch = false;
      for (int k = (int)order.size() - 2; k >= 0; k--) { int b = order[k]; int ni = -1;
        for (int s : succ[b]) { if (idom[s] < 0) continue; if (ni < 0) ni = s; else { int a = s, c = ni; while (a != c) { while (po[a] < po[c]) a = idom[a]; while (po[c] < po[a]) c = idom[c]; } ni = a; } }
        if (ni != idom[b]) { idom[b] = ni; ch = true; } } }
    for (int i = 0; i < n; i++) if (idom[i] >= 0 && idom[i] != EX) ipdom[bbs[i]] = bbs[idom[i]];
  }
  void computeLive() {
    if (liveDone) return; liveDone = true;
    std::unordered_map<const BasicBlock *, std::vector<bool>> in; // live-in before phis for non-phi uses
    for (auto &b : *f) { in[&b].assign(nregs, false); live[&b].assign(nregs, false); }
    bool ch = true;
    while (ch) { ch = false;
      for (auto it = f->end(); it != f->begin();) { --it; auto &b = *it;
        std::vector<bool> cur(nregs, false);
        for (auto *s : llvm::successors(&b)) {
          auto &si = in[s]; for (unsigned i = 0; i < nregs; i++) if (si[i]) cur[i] = true;
          for (auto &ph : s->phis()) { auto *v = ph.getIncomingValueForBlock(&b); auto q = idx.find(v); if (q != idx.end()) cur[q->second] = true; }
        }
        for (auto r = b.rbegin(); r != b.rend(); ++r) { if (isa<llvm::PHINode>(&*r)) break;
          auto q = idx.find(&*r); if (q != idx.end()) cur[q->second] = false;
          for (auto &o : r->operands()) { auto q2 = idx.find(o.get()); if (q2 != idx.end()) cur[q2->second] = true; } }
        if (cur != live[&b]) { live[&b] = cur; ch = true; }
        for (auto &ph : b.phis()) cur[idx[&ph]] = false;
        if (cur != in[&b]) { in[&b] = cur; ch = true; }
      } }
  }
};
static std::unordered_map<Function *, FInfo *> finfos;
static FInfo *info(Function *f) { auto &p = finfos[f]; if (!p) p = new FInfo(f); return p; }

struct Frame {
  FInfo *fi; BasicBlock *bb; BasicBlock::iterator it; BasicBlock *prev = nullptr;
  std::vector<Val> regs; std::vector<uint32_t> allocas; llvm::CallBase *site = nullptr;
};
struct InputRec { E e; };
struct State {
  std::vector<Frame> fr; Mem mem; std::vector<E> pc; std::shared_ptr<Model> wit;
  std::vector<E> inputs; std::vector<E> obs; std::vector<const char *> reach; uint64_t steps = 0, work = 0, alloc = 0; bool jumped = false, mergeOn = true, ptrMerge = false, frozen = false; int guards = 0; uint64_t failAt = 0;
  std::vector<std::pair<E, uint64_t>> exStack; // caught exceptions: (object ptr, typeinfo addr)
  std::map<E, uint64_t> known; bool wantRet = false; std::vector<Val> retVals; 
  uint64_t excObj = 0, excType = 0;
};

// ------------------------------------------------------------------ reporting
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
struct Violation { std::string kind, msg, loc; std::vector<std::string> inputs; };
struct Witness { std::vector<std::string> inputs, obs; std::vector<std::string> reach; };
static std::vector<Violation> viols; static std::vector<Witness> wits;
static std::map<std::string, uint64_t> reachCount; static std::map<std::string, int> violSeen;
static uint64_t nPaths = 0, nSteps = 0, nForks = 0, nMerges = 0, nMergeRefused = 0, nAsserts = 0, nAssertTrivial = 0, nAssertQueries = 0, nMemChecks = 0, nConcretize = 0, nUb = 0;
static std::set<const Instruction *> visited;
static std::map<std::string, std::string> summNotes;
static bool incomplete = false; static std::string incompleteWhy;
static void markIncomplete(const std::string &w) { if (!incomplete) incompleteWhy = w; incomplete = true; }

static std::string dec(const APInt &v) { llvm::SmallString<40> s; v.toStringUnsigned(s, 10); return std::string(s.begin(), s.end()); }
static std::string locOf(const Instruction *i) {
  if (!i) return "?";
  std::string r = i->getFunction()->getName().str();
  if (auto &d = i->getDebugLoc()) {
    const llvm::DILocation *L = d.get(); r = "";
    for (int k = 0; L && k < 8; k++, L = L->getInlinedAt()) {
      auto *sp = L->getScope()->getSubprogram(); if (k) r += " < ";
      r += (sp ? sp->getName().str() : "?") + "@" + L->getFilename().str().substr(L->getFilename().str().rfind('/') + 1) + ":" + std::to_string(L->getLine());
    }
  }
  return r;
}
static const Instruction *curInst(State &s) { if (s.fr.empty()) return nullptr; auto &f = s.fr.back(); return f.it == f.bb->end() ? nullptr : &*f.it; }
static std::string backtrace(State &s) {
  std::string r = locOf(curInst(s));
  for (int k = (int)s.fr.size() - 1; k > 0 && (int)s.fr.size() - k < 6; k--) if (s.fr[k].site) r += " <- " + locOf(s.fr[k].site);
  return r;
}

struct StopEntry {};
static void report(State &s, const std::string &kind, const std::string &msg, const std::shared_ptr<Model> &m) {
  std::string loc = backtrace(s); std::string key = kind + "|" + msg + "|" + locOf(curInst(s));
  if (violSeen[key]++ >= 1) return;
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc;
  for (E e : s.inputs) v.inputs.push_back(dec(m->eval(C, e)));
  viols.push_back(v);
  if (optVerbose) { fprintf(stderr, "VIOL %s: %s at %s inputs:", kind.c_str(), msg.c_str(), loc.c_str()); for (auto &i : v.inputs) fprintf(stderr, " %s", i.c_str()); fprintf(stderr, "\n"); }
  if (viols.size() >= optMaxViol) throw StopEntry{};
}

// ------------------------------------------------------------------ path conditions
static void slice(State &s, const Support *seed, std::vector<E> &out) {
  static std::vector<uint32_t> stamp; static uint32_t ep = 0; ep++; stamp.resize(C.vars.size(), 0);
  for (auto v : *seed) stamp[v] = ep;
  static std::vector<E> rest; rest.clear(); rest.assign(s.pc.begin(), s.pc.end());
  bool ch = true;
  while (ch && !rest.empty()) { ch = false; size_t k = 0;
    for (size_t i = 0; i < rest.size(); i++) { bool hit = false; for (auto v : *rest[i]->sup) if (stamp[v] == ep) { hit = true; break; }
      if (hit) { out.push_back(rest[i]); for (auto v : *rest[i]->sup) stamp[v] = ep; ch = true; } else rest[k++] = rest[i]; }
    rest.resize(k); }
}
static std::shared_ptr<Model> combine(State &s, const std::shared_ptr<Model> &m) {
  auto r = std::make_shared<Model>(); r->vals = s.wit->vals; r->has = s.wit->has;
  for (size_t v = 0; v < m->has.size(); v++) if (m->has[v]) r->set(v, m->vals[v]);
  return r;
}
// is PC && cond satisfiable? model: full model
static Res query(State &s, E cond, std::shared_ptr<Model> *m, bool isAssert = false) {
  if (cond->isConst()) { if (cond->val.isZero()) return UNSAT; if (m) *m = s.wit; return SAT; }
  E ncond = C.Not(cond);
  for (E p : s.pc) { if (p == cond) { if (m) *m = s.wit; return SAT; } if (p == ncond) return UNSAT; }
  if (!s.wit->eval(C, cond).isZero()) { if (m) *m = s.wit; return SAT; }
  if (now() - tStart > optTime) { markIncomplete("time budget exhausted"); throw StopEntry{}; }
  std::vector<E> cs; slice(s, cond->sup, cs); cs.push_back(cond);
  std::shared_ptr<Model> mm; Res r = S->check(cs, &mm, isAssert);
  if (r == UNKNOWN) markIncomplete("solver gave no answer");
  if (r == SAT && m) *m = combine(s, mm);
  return r;
}
static void addPC(State &s, E c) {
  if (c->isConst()) return;
  if (c->w == 1 && c->op == O_AND) { addPC(s, c->c[0]); addPC(s, c->c[1]); return; }
  if (c->op == O_XOR && c->c[0]->isConst() && c->c[1]->op == O_OR) { addPC(s, C.Not(c->c[1]->c[0])); addPC(s, C.Not(c->c[1]->c[1])); return; }
  for (E p : s.pc) if (p == c) return;
  if (c->op == O_EQ && c->c[0]->isConst() && c->c[0]->w <= 64) s.known[c->c[1]] = c->c[0]->u64();
  s.pc.push_back(c);
}
static void assumePC(State &s, E c, const std::shared_ptr<Model> &m) { addPC(s, c); if (m) s.wit = m; }

static State *clone(State *s) { return new State(*s); }

// ------------------------------------------------------------------ values
static std::unordered_map<const llvm::Constant *, Val> constCache;
static std::unordered_map<const llvm::GlobalValue *, uint32_t> globalIds; static std::unordered_map<uint32_t, Function *> funcById;
static uint64_t freshN = 0;
static E fresh(uint32_t w, const char *nm) { return C.newVar(w, std::string(nm) + std::to_string(freshN++), 0, 0, false, -1); }
static Val sc(E e) { Val v; v.e = e; return v; }
static Val ag(std::vector<Val> v) { Val r; r.a = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static uint32_t bitw(Type *t) { if (t->isPointerTy()) return 64; if (t->isX86_MMXTy()) return 64; return t->getPrimitiveSizeInBits().getFixedValue(); }
static bool isScalar(Type *t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy() || t->isX86_MMXTy(); }
static unsigned nElems(Type *t) { if (auto *s = dyn_cast<llvm::StructType>(t)) return s->getNumElements(); if (auto *a = dyn_cast<llvm::ArrayType>(t)) return a->getNumElements(); if (auto *v = dyn_cast<llvm::FixedVectorType>(t)) return v->getNumElements(); fail("nElems"); }
static Type *elemTy(Type *t, unsigned i) { if (auto *s = dyn_cast<llvm::StructType>(t)) return s->getElementType(i); if (auto *a = dyn_cast<llvm::ArrayType>(t)) return a->getElementType(); return cast<llvm::FixedVectorType>(t)->getElementType(); }
static Val undefVal(Type *t) { if (isScalar(t)) return Val(); std::vector<Val> v(nElems(t)); for (unsigned i = 0; i < v.size(); i++) v[i] = undefVal(elemTy(t, i)); return ag(v); }
static Val zeroVal(Type *t) { if (isScalar(t)) return sc(C.K(bitw(t), 0)); std::vector<Val> v(nElems(t)); for (unsigned i = 0; i < v.size(); i++) v[i] = zeroVal(elemTy(t, i)); return ag(v); }
static E scalar(const Val &v, Type *t) { if (!v.e) { if (v.a) fail("scalar of aggregate"); return fresh(bitw(t), "undef"); } return v.e; }

static Val constVal(const llvm::Constant *c);
static E gepOffset(const llvm::GEPOperator *g, const std::function<E(const Value *)> &get) {
  E off = C.K(64, 0);
  for (auto gi = llvm::gep_type_begin(g), ge = llvm::gep_type_end(g); gi != ge; ++gi) {
    if (auto *st = gi.getStructTypeOrNull()) { unsigned fld = cast<llvm::ConstantInt>(gi.getOperand())->getZExtValue(); off = C.Add(off, C.K(64, DL->getStructLayout(st)->getElementOffset(fld))); continue; }
    uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); E i = get(gi.getOperand());
    if (i->w < 64) i = C.SExt(i, 64); else if (i->w > 64) i = C.Extract(i, 0, 64);
    off = C.Add(off, C.Mul(C.K(64, sz), i));
  }
  return off;
}
static Val constVal(const llvm::Constant *c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val r;
  if (auto *ci = dyn_cast<llvm::ConstantInt>(c)) r = sc(C.K(ci->getValue()));
  else if (auto *cf = dyn_cast<llvm::ConstantFP>(c)) { if (cf->getType()->isX86_FP80Ty()) return zeroVal(c->getType()); r = sc(C.K(cf->getValueAPF().bitcastToAPInt())); }
  else if (isa<llvm::ConstantPointerNull>(c)) r = sc(C.K(64, 0));
  else if (isa<llvm::ConstantAggregateZero>(c)) r = zeroVal(c->getType());
  else if (isa<llvm::UndefValue>(c)) return undefVal(c->getType());
  else if (auto *cd = dyn_cast<llvm::ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); r = ag(v); }
  else if (auto *ca = dyn_cast<llvm::ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); r = ag(v); }
  else if (auto *gv = dyn_cast<llvm::GlobalValue>(c)) {
    if (auto *al = dyn_cast<llvm::GlobalAlias>(gv)) return constVal(al->getAliasee());
    auto g = globalIds.find(gv); if (g == globalIds.end()) fail("unknown global " + gv->getName().str()); r = sc(C.K(64, addrOf(g->second))); }
  else if (auto *ce = dyn_cast<llvm::ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return constVal(ce->getOperand(i)).e; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { E b = op(0); r = sc(C.Add(b, gepOffset(cast<llvm::GEPOperator>(ce), [&](const Value *v) { return constVal(cast<llvm::Constant>(v)).e; }))); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { E x = op(0); uint32_t w = bitw(ce->getType()); r = sc(w <= x->w ? C.Extract(x, 0, w) : C.ZExt(x, w)); break; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: r = constVal(ce->getOperand(0)); break;
    case Instruction::Add: r = sc(C.Add(op(0), op(1))); break;
    case Instruction::Sub: r = sc(C.Sub(op(0), op(1))); break;
    case Instruction::ICmp: { if (ce->getPredicate() == llvm::CmpInst::ICMP_EQ) r = sc(C.Eq(op(0), op(1))); else if (ce->getPredicate() == llvm::CmpInst::ICMP_NE) r = sc(C.Ne(op(0), op(1))); else fail("constexpr icmp"); break; }
    default: fail("constant expression " + std::string(ce->getOpcodeName()));
    }
  } else { std::string s; llvm::raw_string_ostream o(s); c->print(o); fail("constant " + o.str()); }
  constCache[c] = r; return r;
}
static Val getV(State &s, const Value *v) {
  Frame &f = s.fr.back();
  auto it = f.fi->idx.find(v); if (it != f.fi->idx.end()) return f.regs[it->second];
  if (auto *c = dyn_cast<llvm::Constant>(v)) return constVal(c);
  if (isa<llvm::MetadataAsValue>(v) || isa<llvm::InlineAsm>(v)) return Val();
  fail("value without register");
}
static E getE(State &s, const Value *v) { return scalar(getV(s, v), v->getType()); }
static void setV(State &s, const Value *v, const Val &x) { Frame &f = s.fr.back(); f.regs[f.fi->idx.at(v)] = x; }

// flatten to a single bit-vector (vectors / scalars)
static E flat(const Val &v, Type *t) {
  if (isScalar(t)) return scalar(v, t);
  if (!t->isVectorTy()) fail("flat of non-vector");
  unsigned n = nElems(t); E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E x = scalar((*v.a)[i], elemTy(t, i)); r = r ? C.Concat(x, r) : x; }
  return r;
}
static Val unflat(E e, Type *t) {
  if (isScalar(t)) return sc(e);
  unsigned n = nElems(t), w = bitw(elemTy(t, 0)); std::vector<Val> v;
  for (unsigned i = 0; i < n; i++) v.push_back(sc(C.Extract(e, i * w, w)));
  return ag(v);
}

// ------------------------------------------------------------------ memory access
static std::unordered_map<uint64_t, E> uninitVars;
static E uninit(uint32_t id, uint64_t off) { uint64_t k = ((uint64_t)id << 32) | off; auto &e = uninitVars[k]; if (!e) e = C.newVar(8, "uninit_" + std::to_string(id) + "_" + std::to_string(off), 0, 0, false, -1); return e; }
static E loadAt(Obj *o, uint64_t off, unsigned n) {
  // whole-expression fast path
  Cell &c0 = o->cells[off];
  if (c0.e) {
    bool ok = c0.e->w >= (c0.idx + n) * 8;
    for (unsigned k = 1; ok && k < n; k++) { Cell &c = o->cells[off + k]; ok = c.e == c0.e && c.idx == c0.idx + k; }
    if (ok) return C.Extract(c0.e, c0.idx * 8, n * 8);
  }
  E r = nullptr;
  for (unsigned k = 0; k < n;) {
    Cell &c = o->cells[off + k]; E x; unsigned m = 1;
    if (!c.e) x = uninit(o->id, off + k);
    else { while (k + m < n && o->cells[off + k + m].e == c.e && o->cells[off + k + m].idx == c.idx + m) m++; x = C.Extract(c.e, c.idx * 8, m * 8); }
    r = r ? C.Concat(x, r) : x; k += m;
  }
  return r;
}
static void storeAt(Obj *o, uint64_t off, E v) { unsigned n = v->w / 8; for (unsigned k = 0; k < n; k++) o->cells[off + k] = Cell{v, (uint8_t)k}; if (n > 255) fail("store too wide"); }
static uint32_t newObj(State &s, uint64_t size, Kind k, bool ro = false) {
  if (size > (1u << 24)) fail("allocation too large: " + std::to_string(size));
  uint32_t id = s.mem.nextId++; auto o = std::make_shared<Obj>(); o->id = id; o->size = size; o->kind = k; o->ro = ro; o->cells.assign(size, Cell{nullptr, 0}); s.mem.put(id, o); return id;
}

struct Alt { E cond; uint32_t id; E off; };
enum Acc { A_OK, A_TERM };
// decompose address into ite leaves
static void leaves(E a, E cond, std::vector<std::pair<E, E>> &out) {
  if (out.size() > 256) { out.push_back({cond, a}); return; }
  if (a->op == O_ITE) { leaves(a->c[1], C.And(cond, a->c[0]), out); leaves(a->c[2], C.And(cond, C.Not(a->c[0])), out); return; }
  if (a->op == O_ADD && a->c[0]->isConst() && a->c[1]->op == O_ITE && a->c[0]->umax.getActiveBits() <= 32) {
    E t = a->c[1]; leaves(C.Add(a->c[0], t->c[1]), C.And(cond, t->c[0]), out); leaves(C.Add(a->c[0], t->c[2]), C.And(cond, C.Not(t->c[0])), out); return; }
  out.push_back({cond, a});
}
static bool hasPtrLeaf(E a) { // an ite whose branches are pointers (to possibly different objects)
  if (a->op == O_ITE) return true;
  return a->op == O_ADD && a->c[0]->isConst() && a->c[1]->op == O_ITE && a->c[0]->umax.getActiveBits() <= 32;
}
static bool inb(uint64_t a, uint64_t n, const ObjP &o) { uint64_t off = a & 0xffffffffull; return o && off + n <= o->size; }
static std::string roName(const ObjP &o) { return o->frozen ? "of memory that is shared while only queries run" : "in read-only memory"; }
static std::string whatAt(State &s, uint64_t a) { uint32_t id = a >> 32; if (id == 0) return "null"; if (id >= s.mem.nextId) return "wild"; if (!s.mem.get(id)) return "freed"; if (s.mem.get(id)->frozen) return roName(s.mem.get(id)); return "out-of-bounds"; }

// Resolve [addr, addr+n) ; on failure paths report violation and constrain. Returns alternatives.
static Acc resolve(State &s, E addr, uint64_t n, bool write, std::vector<Alt> &out) {
  nMemChecks++;
  if (addr->isConst()) {
    uint64_t a = addr->u64(); ObjP o = s.mem.get(a >> 32);
    if (!inb(a, n, o) || o->kind == K_OPAQUE || (write && o->ro)) {
      report(s, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes " + (o && o->kind != K_OPAQUE && inb(a, n, o) ? roName(o) : whatAt(s, a)), s.wit); return A_TERM; }
    out.push_back({C.T(), (uint32_t)(a >> 32), C.K(64, a & 0xffffffffull)}); return A_OK;
  }
  std::vector<std::pair<E, E>> ls;
  bool oneObj = (addr->umin.lshr(32) == addr->umax.lshr(32));
  if (!oneObj && hasPtrLeaf(addr)) leaves(addr, C.T(), ls); else ls.push_back({C.T(), addr});
  for (auto &lf : ls) {
    E cond = lf.first, a = lf.second;
    if (cond->isConst() && cond->val.isZero()) continue;
    for (int guard = 0;; guard++) {
      if (guard > 600) { markIncomplete("too many objects for one pointer"); throw StopEntry{}; }
      uint64_t lo = a->umin.getZExtValue(), hi = a->umax.getZExtValue();
      uint32_t id; ObjP o; bool sure = false;
      if ((lo >> 32) == (hi >> 32)) { id = lo >> 32; o = s.mem.get(id); if (o && (hi & 0xffffffffull) + n <= o->size) sure = true; }
      if (sure && (write && o->ro)) sure = false;
      if (sure) { out.push_back({cond, id, C.Sub(a, C.K(64, addrOf(id)))}); break; }
      // pick the object by a witness
      std::shared_ptr<Model> m;
      if (!s.wit->eval(C, cond).isZero()) m = s.wit; else { Res r = query(s, cond, &m); if (r == UNSAT) break; if (r == UNKNOWN) return A_TERM; }
      uint64_t av = m->eval(C, a).getZExtValue(); id = av >> 32; o = s.mem.get(id);
      if (!inb(av, n, o) || o->kind == K_OPAQUE || (write && o->ro)) {
        report(s, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes " + whatAt(s, av), m);
        // continue with the in-bounds part: constrain away this object id region entirely if possible
        E base = C.K(64, addrOf(id));
        E bad = o ? C.Ult(C.K(64, o->size - std::min<uint64_t>(o->size, n)), C.Sub(a, base)) : C.Eq(C.K(32, id), C.Extract(a, 32, 32));
        if (o && o->size < n) bad = C.Eq(C.K(32, id), C.Extract(a, 32, 32));
        E ok = C.Not(C.And(cond, bad)); std::shared_ptr<Model> m2; Res r = query(s, ok, &m2);
        if (r != SAT) return A_TERM; assumePC(s, ok, m2); continue;
      }
      E off = C.Sub(a, C.K(64, addrOf(id)));
      E in = C.Not(C.Ult(C.K(64, o->size - n), off));
      std::shared_ptr<Model> m2; Res r = query(s, C.And(cond, C.Not(in)), &m2);
      if (r == UNSAT) { out.push_back({cond, id, off}); break; }
      if (r == UNKNOWN) return A_TERM;
      uint64_t a2 = m2->eval(C, a).getZExtValue(); ObjP o2 = s.mem.get(a2 >> 32);
      if (inb(a2, n, o2) && (a2 >> 32) != id && !(write && o2->ro)) { // legitimately several objects
        out.push_back({C.And(cond, in), id, off}); cond = C.And(cond, C.Not(in)); continue; }
      report(s, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes " + whatAt(s, a2), m2);
      E okc = C.Or(C.Not(cond), in); std::shared_ptr<Model> m3; r = query(s, okc, &m3); if (r != SAT) return A_TERM; assumePC(s, okc, m3);
    }
  }
  if (out.empty()) return A_TERM;
  return A_OK;
}
// candidate offsets of a symbolic offset inside an object
static void offRange(State &s, E off, uint64_t size, uint64_t n, uint64_t &lo, uint64_t &hi, unsigned &sh, uint64_t &res) {
  // the low sh bits of the offset are known to be res; lo/hi are inclusive offsets congruent to res
  sh = std::min<unsigned>(6, (off->kz | off->ko).countr_one()); uint64_t st = 1ull << sh; res = off->ko.getZExtValue() & (st - 1);
  lo = off->umin.getZExtValue(); hi = std::min<uint64_t>(off->umax.getZExtValue(), size - n);
  auto norm = [&]() { if (lo <= res) lo = res; else lo = (lo - res + st - 1) / st * st + res; if (hi >= res) hi = (hi - res) / st * st + res; else { hi = 0; lo = 1; } };
  norm();
  if (lo <= hi && (hi - lo) / st > 24) { // tighten by the solver: binary search on the upper and lower bound
    auto feas = [&](E c) { return query(s, c, nullptr) != UNSAT; };
    uint64_t w = s.wit->eval(C, off).getZExtValue();
    uint64_t a = w, b = hi; while (a < b) { uint64_t mid = a + (b - a) / 2; if (feas(C.Ult(C.K(64, mid), off))) a = mid + 1; else b = mid; }
    hi = std::min(hi, a); a = lo; b = w; while (a < b) { uint64_t mid = a + (b - a) / 2; if (feas(C.Ult(off, C.K(64, mid + 1)))) b = mid; else a = mid + 1; } lo = std::max(lo, a);
    norm();
  }
}
static E muxTree(E idx, uint64_t lo, uint64_t hi, int bit, const std::function<E(uint64_t)> &f, uint64_t base) {
  // idx in [lo,hi]; covers values [base, base + 2^(bit+1))
  if (bit < 0) return f(base < lo ? lo : base > hi ? hi : base);
  uint64_t mid = base + (1ull << bit);
  if (mid > hi) return muxTree(idx, lo, hi, bit - 1, f, base);
  if (mid <= lo) return muxTree(idx, lo, hi, bit - 1, f, mid);
  E h = muxTree(idx, lo, hi, bit - 1, f, mid), l = muxTree(idx, lo, hi, bit - 1, f, base);
  if (h == l) return h;
  return C.Ite(C.Extract(idx, bit, 1), h, l);
}
static E loadSym(State &s, uint32_t id, E off, unsigned n) {
  ObjP o = s.mem.get(id);
  if (off->isConst()) return loadAt(o.get(), off->u64(), n);
  uint64_t lo, hi, res; unsigned sh; offRange(s, off, o->size, n, lo, hi, sh, res);
  if (lo > hi) return loadAt(o.get(), 0, n); // unreachable value
  if (((hi - lo) >> sh) > 20000) { markIncomplete("symbolic index over too large an object"); throw StopEntry{}; }
  E idx = sh ? C.Extract(off, sh, 64 - sh) : off;
  int bit = 0; while (bit < 40 && ((hi >> sh) >> (bit + 1))) bit++;
  return muxTree(idx, lo >> sh, hi >> sh, bit, [&](uint64_t k) { return loadAt(o.get(), (k << sh) + res, n); }, 0);
}
static void storeSym(State &s, uint32_t id, E off, E v, E cond) {
  Obj *o = s.mem.writable(id); unsigned n = v->w / 8;
  if (off->isConst()) {
    uint64_t k = off->u64(); if (!(cond->isConst())) v = C.Ite(cond, v, loadAt(o, k, n)); storeAt(o, k, v); return; }
  uint64_t lo, hi, res; unsigned sh; offRange(s, off, o->size, n, lo, hi, sh, res); if (lo > hi) return; uint64_t st = 1ull << sh;
  o = s.mem.writable(id);
  if (st >= n) {
    for (uint64_t k = lo; k <= hi; k += st) { E c = C.And(cond, C.Eq(C.K(64, k), off)); if (c->isConst() && c->val.isZero()) continue; E old = loadAt(o, k, n); E nv = C.Ite(c, v, old); if (nv != old) storeAt(o, k, nv); }
  } else {
    std::vector<E> old(hi + n - lo); for (uint64_t k = lo; k < hi + n; k++) old[k - lo] = loadAt(o, k, 1);
    for (uint64_t k = lo; k <= hi; k += st) { E c = C.And(cond, C.Eq(C.K(64, k), off)); if (c->isConst() && c->val.isZero()) continue;
      for (unsigned j = 0; j < n; j++) old[k + j - lo] = C.Ite(c, C.Extract(v, 8 * j, 8), old[k + j - lo]); }
    for (uint64_t k = lo; k < hi + n; k++) storeAt(o, k, old[k - lo]);
  }
}
static Acc memLoad(State &s, E addr, unsigned n, E &out) {
  std::vector<Alt> al; if (resolve(s, addr, n, false, al) == A_TERM) return A_TERM;
  E r = nullptr; for (int i = (int)al.size() - 1; i >= 0; i--) { E x = loadSym(s, al[i].id, al[i].off, n); r = r ? C.Ite(al[i].cond, x, r) : x; }
  out = r; return A_OK;
}
static Acc memStore(State &s, E addr, E v) {
  std::vector<Alt> al; if (resolve(s, addr, v->w / 8, true, al) == A_TERM) return A_TERM;
  for (auto &a : al) storeSym(s, a.id, a.off, v, al.size() == 1 ? C.T() : a.cond);
  return A_OK;
}
static Acc loadTy(State &s, E addr, Type *t, Val &out) {
  if (isScalar(t)) { unsigned w = bitw(t), n = DL->getTypeStoreSize(t); if (t->isX86_FP80Ty()) { out = sc(fresh(80, "fp80")); return A_OK; } E e; if (memLoad(s, addr, n, e) == A_TERM) return A_TERM; out = sc(e->w > w ? C.Extract(e, 0, w) : e); return A_OK; }
  if (t->isVectorTy()) { unsigned n = DL->getTypeStoreSize(t); E e; if (memLoad(s, addr, n, e) == A_TERM) return A_TERM; out = unflat(e, t); return A_OK; }
  std::vector<Val> v(nElems(t));
  for (unsigned i = 0; i < v.size(); i++) { uint64_t o = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<llvm::StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(elemTy(t, i)); if (loadTy(s, C.Add(C.K(64, o), addr), elemTy(t, i), v[i]) == A_TERM) return A_TERM; }
  out = ag(v); return A_OK;
}
static Acc storeTy(State &s, E addr, Type *t, const Val &v) {
  if (t->isX86_FP80Ty()) return A_OK;
  if (isScalar(t)) { E e = scalar(v, t); unsigned n = DL->getTypeStoreSize(t); if (e->w < n * 8) e = C.ZExt(e, n * 8); return memStore(s, addr, e); }
  if (t->isVectorTy()) return memStore(s, addr, flat(v, t));
  for (unsigned i = 0; i < nElems(t); i++) { uint64_t o = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<llvm::StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(elemTy(t, i));
    const Val &x = (*v.a)[i]; if (!x.e && !x.a) continue; if (storeTy(s, C.Add(C.K(64, o), addr), elemTy(t, i), x) == A_TERM) return A_TERM; }
  return A_OK;
}
static void initGlobal(Obj *o, uint64_t off, const llvm::Constant *c) {
  Type *t = c->getType();
  if (isa<llvm::UndefValue>(c)) return;
  if (isa<llvm::ConstantAggregateZero>(c) || c->isNullValue()) { E z = C.K(8, 0); for (uint64_t k = 0; k < DL->getTypeStoreSize(t); k++) o->cells[off + k] = Cell{z, 0}; return; }
  if (t->isX86_FP80Ty()) return;
  if (isScalar(t)) { E e = constVal(c).e; unsigned n = DL->getTypeStoreSize(t); if (e->w < n * 8) e = C.ZExt(e, n * 8); storeAt(o, off, e); return; }
  if (t->isVectorTy()) { E e = flat(constVal(c), t); for (unsigned k = 0; k < e->w / 8; k++) o->cells[off + k] = Cell{C.Extract(e, k * 8, 8), 0}; return; }
  for (unsigned i = 0; i < nElems(t); i++) { uint64_t q = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<llvm::StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(elemTy(t, i)); initGlobal(o, off + q, c->getAggregateElement(i)); }
}

#include "exec2.inc"
