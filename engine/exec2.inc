// instruction interpretation, calls, exceptions, merging, driver
static bool pickFork = false; // set by step: the forks differ in a chosen input and cannot merge
enum StepRes { R_CONT, R_DONE, R_FORK };
using Forks = std::vector<State *>;

static void jumpTo(State &s, BasicBlock *bb) {
  Frame &f = s.fr.back(); BasicBlock *prev = f.bb; s.work++;
  std::vector<std::pair<const Value *, Val>> tmp;
  for (auto &ph : bb->phis()) tmp.push_back({&ph, getV(s, ph.getIncomingValueForBlock(prev))});
  f.prev = prev; f.bb = bb; f.it = bb->getFirstNonPHI()->getIterator(); s.jumped = true;
  for (auto &t : tmp) setV(s, t.first, t.second);
}
static void pushFrame(State &s, Function *fn, const std::vector<Val> &args, llvm::CallBase *site) {
  s.work++; if (s.fr.size() > 4000) { report(s, "stack-overflow", "call depth exceeds 4000", s.wit); fail("call depth"); }
  Frame f; f.fi = info(fn); f.bb = &fn->getEntryBlock(); f.it = f.bb->begin(); f.regs.resize(f.fi->nregs); f.site = site;
  unsigned i = 0; for (auto &a : fn->args()) { if (i < args.size()) f.regs[i] = args[i]; i++; (void)a; }
  s.fr.push_back(std::move(f));
}
static void popFrame(State &s) { for (auto id : s.fr.back().allocas) s.mem.put(id, nullptr); s.fr.pop_back(); }
static void afterCall(State &s, const Val &v) { // frame top is the caller, it at the call
  Frame &f = s.fr.back(); auto *cb = cast<llvm::CallBase>(&*f.it);
  if (!cb->getType()->isVoidTy()) setV(s, cb, v);
  if (auto *inv = dyn_cast<llvm::InvokeInst>(cb)) jumpTo(s, inv->getNormalDest()); else { ++f.it; s.jumped = true; }
}
static std::map<uint64_t, int> typeIds; static int typeId(uint64_t a) { auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; typeIds[a] = k; return k; }
static bool typeMatches(State &s, uint64_t thrown, uint64_t want) {
  for (int d = 0; d < 8; d++) {
    if (thrown == want) return true;
    ObjP o = s.mem.get(thrown >> 32); if (!o || o->kind == K_OPAQUE || o->size < 24) return false; // __si_class_type_info: third word is the base
    E b = loadAt(o.get(), 16, 8); if (!b->isConst()) return false; thrown = b->u64(); if (!thrown) return false;
  }
  return false;
}
// unwind with s.excObj/excType set. frame top: its 'it' is the throwing call (or resume)
static StepRes unwind(State &s, bool skipTop) {
  if (skipTop) popFrame(s);
  while (!s.fr.empty()) {
    Frame &f = s.fr.back();
    if (auto *inv = dyn_cast<llvm::InvokeInst>(&*f.it)) {
      BasicBlock *lb = inv->getUnwindDest(); auto *lp = lb->getLandingPadInst(); bool hit = lp->isCleanup();
      for (unsigned i = 0; !hit && i < lp->getNumClauses(); i++) { if (!lp->isCatch(i)) { hit = true; break; } auto *cl = lp->getClause(i);
        if (cl->isNullValue() || typeMatches(s, s.excType, constVal(cl).e->u64())) hit = true; }
      if (hit) { jumpTo(s, lb); return R_CONT; }
    }
    if (s.fr.size() == 1) { report(s, "uncaught-exception", "an exception leaves the harness", s.wit); }
    popFrame(s);
  }
  return R_DONE;
}
static uint32_t globalByName(const char *n) { auto *g = M->getNamedValue(n); if (g) { auto it = globalIds.find(g); if (it != globalIds.end()) return it->second; } return 0; }
static uint64_t pseudoType(const std::string &n) { if (uint32_t id = globalByName(n.c_str())) return addrOf(id); static std::map<std::string, uint64_t> m; auto &x = m[n]; if (!x) x = 0x7000000000000000ull + (m.size() << 32); return x; }

// concretise: true -> out valid; false -> forks filled (state consumed) or terminated
static bool concretize(State *s, E e, uint64_t &out, Forks &forks, unsigned limit = 520) {
  if (e->isConst()) { out = e->u64(); return true; }
  auto it = s->known.find(e); if (it != s->known.end()) { out = it->second; return true; }
  nConcretize++;
  std::vector<std::pair<uint64_t, std::shared_ptr<Model>>> vs; E rest = C.T();
  APInt v0 = s->wit->eval(C, e); vs.push_back({v0.getZExtValue(), s->wit}); rest = C.Ne(C.K(v0), e);
  while (true) {
    std::shared_ptr<Model> m; Res r = query(*s, rest, &m); if (r == UNSAT) break; if (r == UNKNOWN) { delete s; return false; }
    APInt v = m->eval(C, e); vs.push_back({v.getZExtValue(), m}); rest = C.And(rest, C.Ne(C.K(v), e));
    if (vs.size() > limit) { fail("too many values to enumerate at " + backtrace(*s)); }
  }
  if (vs.size() == 1) { s->known[e] = vs[0].first; out = vs[0].first; return true; }
  nForks += vs.size() - 1;
  std::sort(vs.begin(), vs.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (size_t i = 0; i < vs.size(); i++) { State *n = i + 1 == vs.size() ? s : clone(s); E c = C.Eq(C.K(e->w, vs[i].first), e); addPC(*n, c); n->known[e] = vs[i].first; n->wit = vs[i].second; forks.push_back(n); }
  return false;
}

// ------------------------------------------------------------------ summaries of verified helpers
struct Summary { std::string name; std::function<E(const std::vector<E> &)> f; };
static std::unordered_map<Function *, Summary *> summ;
static uint64_t summUses = 0;
// contract of a verified helper: pre(args) => post(args, result), the result being result(z) of a fresh z
struct Contract { std::string name; uint32_t zw; std::function<E(const std::vector<E> &)> pre; std::function<E(const std::vector<E> &, E)> post; std::function<E(E, uint32_t)> result, inverse; };
static std::unordered_map<Function *, Contract *> contracts;

static E ctz(E x) { uint32_t w = x->w; return C.Ctpop(C.And(C.Not(x), C.Sub(x, C.K(w, 1)))); }
static E clz(E x) { uint32_t w = x->w; for (uint32_t k = 1; k < w; k *= 2) x = C.Or(x, C.LShr(x, C.K(w, k))); return C.Ctpop(C.Not(x)); }

static double fpOf(uint64_t b, Type *t) { if (t->isDoubleTy()) { double d; memcpy(&d, &b, 8); return d; } float f; uint32_t u = b; memcpy(&f, &u, 4); return f; }
static uint64_t fpBits(double d, Type *t) { if (t->isDoubleTy()) { uint64_t b; memcpy(&b, &d, 8); return b; } float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }

static Val mapLanes(Type *t, const std::function<E(unsigned)> &f) { if (!t->isVectorTy()) return sc(f(0)); std::vector<Val> v; for (unsigned i = 0; i < nElems(t); i++) v.push_back(sc(f(i))); return ag(v); }
static E lane(const Val &v, Type *t, unsigned i) { if (!t->isVectorTy()) return scalar(v, t); return scalar((*v.a)[i], elemTy(t, 0)); }
static Val iteVal(E c, const Val &a, const Val &b, Type *t) {
  if (isScalar(t)) return sc(C.Ite(c, scalar(a, t), scalar(b, t)));
  std::vector<Val> v; for (unsigned i = 0; i < nElems(t); i++) v.push_back(iteVal(c, (*a.a)[i], (*b.a)[i], elemTy(t, i))); return ag(v);
}
static E shiftOp(unsigned op, E a, E b) {
  uint32_t w = a->w; auto f = [&](E bb) { return op == Instruction::Shl ? C.Shl(a, bb) : op == Instruction::LShr ? C.LShr(a, bb) : C.AShr(a, bb); };
  if (b->umax.ult(w)) return f(b);
  nUb++;
  if (optUbMask && (w == 64 || w == 32)) return f(C.And(C.K(w, w - 1), b));
  return C.Ite(C.Ult(b, C.K(w, w)), f(b), fresh(w, "oversized_shift"));
}
static E icmp(llvm::CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case llvm::CmpInst::ICMP_EQ: return C.Eq(a, b); case llvm::CmpInst::ICMP_NE: return C.Ne(a, b);
  case llvm::CmpInst::ICMP_ULT: return C.Ult(a, b); case llvm::CmpInst::ICMP_ULE: return C.Ule(a, b); case llvm::CmpInst::ICMP_UGT: return C.Ult(b, a); case llvm::CmpInst::ICMP_UGE: return C.Ule(b, a);
  case llvm::CmpInst::ICMP_SLT: return C.Slt(a, b); case llvm::CmpInst::ICMP_SLE: return C.Sle(a, b); case llvm::CmpInst::ICMP_SGT: return C.Slt(b, a); case llvm::CmpInst::ICMP_SGE: return C.Sle(b, a);
  default: fail("icmp predicate"); }
}

static bool copyMem(State *s, uint64_t d, uint64_t q, uint64_t n, bool &term) { // concrete addresses
  term = false; if (n == 0) return true;
  ObjP so = s->mem.get(q >> 32), dob = s->mem.get(d >> 32);
  if (!inb(q, n, so) || so->kind == K_OPAQUE) { report(*s, "memory", "read of " + std::to_string(n) + " bytes " + whatAt(*s, q), s->wit); term = true; return false; }
  if (!inb(d, n, dob) || dob->kind == K_OPAQUE || dob->ro) { report(*s, "memory", "write of " + std::to_string(n) + " bytes " + whatAt(*s, d), s->wit); term = true; return false; }
  std::vector<Cell> tmp(so->cells.begin() + (q & 0xffffffff), so->cells.begin() + (q & 0xffffffff) + n);
  uint32_t sid = q >> 32; for (uint64_t k = 0; k < n; k++) if (!tmp[k].e) { bool differs = (d >> 32) != sid || (d != q); if (differs) tmp[k] = Cell{uninit(sid, (q & 0xffffffff) + k), 0}; }
  Obj *o = s->mem.writable(d >> 32); std::copy(tmp.begin(), tmp.end(), o->cells.begin() + (d & 0xffffffff)); return true;
}
static std::string cstr(State &s, uint64_t a) { std::string r; ObjP o = s.mem.get(a >> 32); if (!o) return "?"; for (uint64_t k = a & 0xffffffff; k < o->size; k++) { E e = loadAt(o.get(), k, 1); if (!e->isConst() || e->val.isZero()) break; r += (char)e->u64(); } return r; }

static void finishPath(State *s) {
  nPaths++;
  bool take = wits.size() < optWitness || (nPaths & (nPaths - 1)) == 0;
  if (take) { Witness w; for (E e : s->inputs) w.inputs.push_back(dec(s->wit->eval(C, e))); for (E e : s->obs) w.obs.push_back(dec(s->wit->eval(C, e))); for (auto r : s->reach) w.reach.push_back(r);
    if (wits.size() >= optWitness + 12) wits.erase(wits.begin() + optWitness / 2); wits.push_back(w);
    // further random members of the same path (translator validation)
    static uint64_t rs = 0x9e3779b97f4a7c15ull ^ (getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) * 0x2545F4914F6CDD1Dull : 0); auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    std::set<uint32_t> vs; for (E e : s->inputs) for (auto v : *e->sup) vs.insert(v); if (vs.empty() || nPaths > 64) return;
    static unsigned extra = 0; if (extra >= optWitness) return;
    for (int t = 0, got = 0; t < 6 && got < 2; t++) {
      auto m = std::make_shared<Model>(); m->vals = s->wit->vals; m->has = s->wit->has;
      for (auto v : vs) { auto &vi = C.vars[v]; uint64_t r = rnd(); unsigned k = rnd() % 4; if (k == 1) r &= rnd(); if (k == 2) r |= rnd(); if (k == 3 && (rnd() & 1)) continue; uint64_t full = vi.w >= 64 ? ~0ull : (1ull << vi.w) - 1; r &= full; if (vi.ranged) { uint64_t l0 = vi.lo.getZExtValue(), span = vi.hi.getZExtValue() - l0 + 1; r = span ? l0 + r % span : r; } m->set(v, APInt(vi.w, r)); }
      bool ok = true; for (E p : s->pc) if (m->eval(C, p).isZero()) { ok = false; break; } if (!ok) continue; got++; extra++;
      Witness w2; for (E e : s->inputs) w2.inputs.push_back(dec(m->eval(C, e))); for (E e : s->obs) w2.obs.push_back(dec(m->eval(C, e))); wits.push_back(w2); } }
}

static StepRes doThrow(State *s, uint64_t obj, uint64_t type) { s->excObj = obj; s->excType = type; StepRes r = unwind(*s, false); if (r == R_DONE) { delete s; } return r; }
static StepRes throwLib(State *s, const char *ti) { uint32_t id = newObj(*s, 64, K_EXC); return doThrow(s, addrOf(id), pseudoType(ti)); }

static std::unordered_map<std::string, Function *> redirect;
static std::set<std::string> stubbed;

// everything but the stack becomes read-only (or writable again)
static void freezeMem(State &s, bool on, bool globalsOnly) {
  for (uint32_t id = 1; id < s.mem.nextId; id++) { ObjP o = s.mem.get(id); if (!o || (o->kind != K_GLOBAL && (globalsOnly || (o->kind != K_HEAP && o->kind != K_NEW && o->kind != K_NEWARR)))) continue;
    if (on ? o->ro : !o->frozen) continue; o.reset(); Obj *w = s.mem.writable(id); w->ro = w->frozen = on; } }
// returns R_CONT when handled (and advanced), forks etc. handled=false -> not a builtin
static StepRes builtin(State *&s, llvm::CallBase *cb, Function *fn, const std::vector<Val> &args, Forks &forks, bool &handled) {
  handled = true; std::string n = fn->getName().str();
  auto A = [&](unsigned i) { return scalar(args[i], cb->getArgOperand(i)->getType()); };
  auto ret = [&](E e) { afterCall(*s, sc(e)); return R_CONT; };
  auto retv = [&]() { afterCall(*s, Val()); return R_CONT; };
  uint64_t x, y, zz;
#define CONC(i, var) if (!concretize(s, A(i), var, forks)) return forks.empty() ? R_DONE : R_FORK
  if (n[0] == '_' && n[1] == '_' && n.compare(0, 6, "__sym_") == 0) {
    if (n == "__sym_input") { uint64_t bits = A(0)->u64(), lo = A(1)->u64(), hi = A(2)->u64(); uint64_t full = bits == 64 ? ~0ull : (1ull << bits) - 1;
      if (lo == hi) { E k = C.K(64, lo); s->inputs.push_back(k); return ret(k); }
      bool rg = !(lo == 0 && hi == full);
      static std::map<std::tuple<size_t, uint64_t, uint64_t, uint64_t>, E> inVars; auto &e = inVars[{s->inputs.size(), bits, lo, hi}]; // same position & type => same variable on every path
      if (!e) e = C.newVar(bits, "in" + std::to_string(s->inputs.size()) + "_" + std::to_string(bits), lo, hi, rg, s->inputs.size());
      E z = C.ZExt(e, 64); s->inputs.push_back(z); return ret(z); }
    if (n == "__sym_pick") { uint64_t lo = A(0)->u64(), hi = A(1)->u64(); if (hi < lo) fail("empty pick");
      for (uint64_t k = lo; k <= hi; k++) { State *q = k == hi ? s : clone(s); E kv = C.K(64, k); q->inputs.push_back(kv); afterCall(*q, sc(kv)); forks.push_back(q); }
      if (lo == hi) { forks.clear(); return R_CONT; } pickFork = true; nForks += hi - lo; return R_FORK; }
    if (n == "__sym_concretize") { CONC(0, x); return ret(C.K(64, x)); }
    if (n == "__sym_assume") { E c = A(0); if (c->w > 1) c = C.Ne(c, C.K(c->w, 0)); std::shared_ptr<Model> m; Res r = query(*s, c, &m); if (r != SAT) { delete s; return R_DONE; } assumePC(*s, c, m); return retv(); }
    if (n == "__sym_assert") { nAsserts++; E c = A(0); if (c->w > 1) c = C.Ne(c, C.K(c->w, 0)); E nc = C.Not(c);
      if (c->isConst() && !c->val.isZero()) { nAssertTrivial++; return retv(); }
      std::shared_ptr<Model> m; nAssertQueries++; Res r = query(*s, nc, &m, true);
      if (r == SAT) { report(*s, "assert", cstr(*s, A(1)->u64()), m); Res r2 = query(*s, c, &m); if (r2 != SAT) { delete s; return R_DONE; } assumePC(*s, c, m); return retv(); }
      if (r == UNKNOWN) { return retv(); }
      if (std::find(s->pc.begin(), s->pc.end(), c) == s->pc.end()) { addPC(*s, c); s->pc.erase(std::remove(s->pc.begin(), s->pc.end(), c), s->pc.end()); } return retv(); }
    if (n == "__sym_reach") { std::string l = cstr(*s, A(0)->u64()); static std::set<std::string> pool; auto it = pool.insert(l).first; reachCount[l]++; bool have = false; for (auto r : s->reach) if (r == it->c_str()) have = true; if (!have) s->reach.push_back(it->c_str()); return retv(); }
    if (n == "__sym_obs") { s->obs.push_back(A(0)); return retv(); }
    if (n == "__sym_steps") { CONC(0, x); optMaxSteps = x; return retv(); }
    if (n == "__sym_merge") { CONC(0, x); s->mergeOn = x & 1; s->ptrMerge = x & 2; return retv(); }
    if (n == "__sym_freeze" || n == "__sym_thaw") { s->frozen = n == "__sym_freeze"; freezeMem(*s, s->frozen, false); return retv(); }
    if (n == "__sym_fail") { CONC(0, x); s->failAt = x; return retv(); }
    if (n == "__sym_live") { uint64_t k = 0; for (uint32_t id = 1; id < s->mem.nextId; id++) { ObjP o = s->mem.get(id); k += o && (o->kind == K_HEAP || o->kind == K_NEW || o->kind == K_NEWARR); } return ret(C.K(64, k)); }
    if (n == "__sym_work") return ret(C.K(64, s->work));
    if (n == "__sym_alloc") return ret(C.K(64, s->alloc));
    if (n == "__sym_engine") return ret(C.K(32, 1));
    if (n == "__sym_print") { fprintf(stderr, "[print %s = %s]\n", cstr(*s, A(0)->u64()).c_str(), C.str(A(1), 8).c_str()); return retv(); }
  }
  // ---- allocation
  auto fails = [&] { return s->failAt && --s->failAt == 0; }; // the harness asked for this one to fail
  static const std::set<std::string> news = {"_Znwm", "_ZnwmRKSt9nothrow_t"}, newas = {"_Znam", "_ZnamRKSt9nothrow_t"};
  if (n == "malloc" || n == "valloc") { CONC(0, x); if (fails()) return ret(C.K(64, 0)); s->work += x / 16; s->alloc += x; return ret(C.K(64, addrOf(newObj(*s, x, K_HEAP)))); }
  if (news.count(n) || n == "_ZnwmSt11align_val_t" || n == "_ZnwmSt11align_val_tRKSt9nothrow_t") { CONC(0, x); s->work += x / 16; s->alloc += x; if (fails() || x > (1ull << 40)) return throwLib(s, "_ZTISt9bad_alloc"); if (x > (1u << 24)) { report(*s, "allocation", "allocation of " + std::to_string(x) + " bytes", s->wit); markIncomplete("allocation of more than 16 MB"); delete s; return R_DONE; } return ret(C.K(64, addrOf(newObj(*s, x, K_NEW)))); }
  if (newas.count(n) || n == "_ZnamSt11align_val_t") { CONC(0, x); s->work += x / 16; s->alloc += x; if (fails() || x > (1ull << 40)) return throwLib(s, "_ZTISt9bad_alloc"); if (x > (1u << 24)) { report(*s, "allocation", "allocation of " + std::to_string(x) + " bytes", s->wit); markIncomplete("allocation of more than 16 MB"); delete s; return R_DONE; } return ret(C.K(64, addrOf(newObj(*s, x, K_NEWARR)))); }
  if (n == "aligned_alloc") { CONC(1, x); if (fails()) return ret(C.K(64, 0)); s->work += x / 16; s->alloc += x; return ret(C.K(64, addrOf(newObj(*s, x, K_HEAP)))); }
  if (n == "calloc") { CONC(0, x); CONC(1, y); if (fails()) return ret(C.K(64, 0)); uint32_t id = newObj(*s, x * y, K_HEAP); Obj *o = s->mem.writable(id); for (auto &c : o->cells) c = Cell{C.K(8, 0), 0}; return ret(C.K(64, addrOf(id))); }
  if (n == "posix_memalign") { CONC(2, x); if (fails()) return ret(C.K(32, 12)); s->work += x / 16; s->alloc += x; uint64_t id = newObj(*s, x, K_HEAP); if (memStore(*s, A(0), C.K(64, addrOf(id))) == A_TERM) { delete s; return R_DONE; } return ret(C.K(32, 0)); }
  if (n == "free" || n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0) {
    CONC(0, x); if (x == 0) return retv(); ObjP o = s->mem.get(x >> 32);
    Kind want = n == "free" ? K_HEAP : n[3] == 'l' ? K_NEW : K_NEWARR;
    if (!o || (x & 0xffffffff) || o->kind != want) { report(*s, "memory", std::string("invalid free (") + (o ? "mismatched or interior pointer" : whatAt(*s, x)) + ")", s->wit); delete s; return R_DONE; }
    if (o->frozen) { report(*s, "memory", "release " + roName(o), s->wit); delete s; return R_DONE; }
    s->mem.put(x >> 32, nullptr); return retv(); }
  // ---- memory functions
  bool isMemInt = n.compare(0, 12, "llvm.memcpy.") == 0 || n.compare(0, 13, "llvm.memmove.") == 0;
  if (isMemInt || n == "memcpy" || n == "memmove") { CONC(2, zz); s->work += zz / 16; if (zz) { CONC(0, x); CONC(1, y); bool term; if (!copyMem(s, x, y, zz, term)) { delete s; return R_DONE; } } if (isMemInt) return retv(); return ret(A(0)); }
  if (n.compare(0, 12, "llvm.memset.") == 0 || n == "memset") { CONC(2, zz); s->work += zz / 16; E v = A(1); if (v->w > 8) v = C.Extract(v, 0, 8);
    if (zz) { CONC(0, x); ObjP o = s->mem.get(x >> 32); if (!inb(x, zz, o) || o->ro || o->kind == K_OPAQUE) { report(*s, "memory", "write of " + std::to_string(zz) + " bytes " + whatAt(*s, x), s->wit); delete s; return R_DONE; }
      Obj *w = s->mem.writable(x >> 32); for (uint64_t k = 0; k < zz; k++) w->cells[(x & 0xffffffff) + k] = Cell{v, 0}; }
    if (n[0] == 'l') return retv(); return ret(A(0)); }
  if (n == "memcmp" || n == "bcmp") { CONC(2, zz); E r = C.K(32, 0); if (zz) { CONC(0, x); CONC(1, y); ObjP a = s->mem.get(x >> 32), b = s->mem.get(y >> 32);
      if (!inb(x, zz, a) || !inb(y, zz, b) || a->kind == K_OPAQUE || b->kind == K_OPAQUE) { report(*s, "memory", "memcmp reads " + std::to_string(zz) + " bytes " + (inb(x, zz, a) ? whatAt(*s, y) : whatAt(*s, x)), s->wit); delete s; return R_DONE; }
      for (int64_t k = zz - 1; k >= 0; k--) { E p = loadAt(a.get(), (x & 0xffffffff) + k, 1), q = loadAt(b.get(), (y & 0xffffffff) + k, 1); r = C.Ite(C.Eq(p, q), r, C.Sub(C.ZExt(p, 32), C.ZExt(q, 32))); } }
    return ret(r); }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { CONC(0, x); return ret(C.K(64, addrOf(newObj(*s, std::max<uint64_t>(x, 1), K_EXC)))); }
  if (n == "__cxa_free_exception") return retv();
  if (n == "__cxa_throw") return doThrow(s, A(0)->u64(), A(1)->u64());
  if (n == "__cxa_begin_catch") { s->exStack.push_back({A(0), s->excType}); return ret(A(0)); }
  if (n == "__cxa_get_exception_ptr") return ret(A(0));
  if (n == "__cxa_end_catch") { if (!s->exStack.empty()) s->exStack.pop_back(); return retv(); }
  if (n == "__cxa_rethrow") { if (s->exStack.empty()) fail("rethrow"); auto p = s->exStack.back(); s->exStack.pop_back(); return doThrow(s, p.first->u64(), p.second); }
  if (n == "_Unwind_Resume") { s->excObj = A(0)->u64(); StepRes r = unwind(*s, true); if (r == R_DONE) delete s; return r; }
  if (n.compare(0, 2, "_Z") == 0 && n.find("__throw_") != std::string::npos) {
    const char *t = "_ZTISt9exception"; struct { const char *k, *t; } tt[] = {{"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"logic_error", "_ZTISt11logic_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_array_new", "_ZTISt20bad_array_new_length"}, {"bad_function_call", "_ZTISt17bad_function_call"}};
    for (auto &q : tt) if (n.find(q.k) != std::string::npos) { t = q.t; break; } return throwLib(s, t); }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "exit" || n == "_exit") { report(*s, "abort", "call of " + n, s->wit); delete s; return R_DONE; }
  // ---- misc runtime
  if (n == "__cxa_guard_acquire") { E g; // the language makes the initialisation of a local static safe among threads
    if (s->frozen && s->guards++ == 0) freezeMem(*s, false, true); if (memLoad(*s, A(0), 1, g) == A_TERM) { delete s; return R_DONE; } return ret(C.ZExt(C.Not(C.Ne(g, C.K(8, 0))), 32)); }
  if (n == "__cxa_guard_release") { if (memStore(*s, A(0), C.K(8, 1)) == A_TERM) { delete s; return R_DONE; } if (s->frozen && --s->guards == 0) freezeMem(*s, true, true); return retv(); }
  if (n == "__cxa_guard_abort" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return retv();
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") return ret(C.K(32, 0));
  static const std::set<std::string> exCtor = {"_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"};
  if (exCtor.count(n)) return retv();
  if (n == "sysconf" || n == "getpagesize") fail("external " + n);
  // math on concrete doubles
  if (n == "ceil" || n == "floor" || n == "log2" || n == "log" || n == "sqrt" || n == "pow" || n == "round" || n.compare(0, 10, "llvm.ceil.") == 0 || n.compare(0, 11, "llvm.floor.") == 0 || n.compare(0, 10, "llvm.fabs.") == 0 || n.compare(0, 10, "llvm.sqrt.") == 0 || n.compare(0, 13, "llvm.fmuladd.") == 0) {
    CONC(0, x); Type *t = cb->getType(); double a = fpOf(x, t), r; y = zz = 0; if (cb->arg_size() > 1) CONC(1, y); if (cb->arg_size() > 2) CONC(2, zz); double b = fpOf(y, t), c3 = fpOf(zz, t);
    if (n.find("fmuladd") != std::string::npos) r = a * b + c3; else if (n.find("ceil") != std::string::npos) r = ceil(a); else if (n.find("floor") != std::string::npos) r = floor(a); else if (n.find("log2") != std::string::npos) r = log2(a); else if (n.find("fabs") != std::string::npos) r = fabs(a); else if (n.find("sqrt") != std::string::npos) r = sqrt(a); else if (n == "pow") r = pow(a, b); else if (n == "round") r = round(a); else r = log(a);
    return ret(C.K(bitw(t), fpBits(r, t))); }
  // ---- intrinsics
  if (fn->isIntrinsic()) {
    Type *rt = cb->getType(); auto id = fn->getIntrinsicID(); Type *t0 = cb->arg_size() ? cb->getArgOperand(0)->getType() : nullptr;
    auto un = [&](const std::function<E(E)> &f) { afterCall(*s, mapLanes(rt, [&](unsigned i) { return f(lane(args[0], t0, i)); })); return R_CONT; };
    auto bi = [&](const std::function<E(E, E)> &f) { Type *t1 = cb->getArgOperand(1)->getType(); afterCall(*s, mapLanes(rt, [&](unsigned i) { return f(lane(args[0], t0, i), lane(args[1], t1, i)); })); return R_CONT; };
    using namespace llvm;
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::x86_mmx_emms: case Intrinsic::stackrestore: return retv();
    case Intrinsic::stacksave: return ret(C.K(64, 0));
    case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: afterCall(*s, args[0]); return R_CONT;
    case Intrinsic::trap: report(*s, "abort", "trap", s->wit); delete s; return R_DONE;
    case Intrinsic::eh_typeid_for: return ret(C.K(32, typeId(A(0)->u64())));
    case Intrinsic::is_constant: return ret(C.F());
    case Intrinsic::objectsize: return ret(cast<ConstantInt>(cb->getArgOperand(1))->isZero() ? C.allOnes(bitw(rt)) : C.K(bitw(rt), 0));
    case Intrinsic::ctpop: return un([](E e) { return C.Ctpop(e); });
    case Intrinsic::cttz: return un([](E e) { return ctz(e); });
    case Intrinsic::ctlz: return un([](E e) { return clz(e); });
    case Intrinsic::abs: return un([](E e) { return C.Ite(C.Slt(e, C.K(e->w, 0)), C.Neg(e), e); });
    case Intrinsic::bswap: return un([](E e) { E r = nullptr; for (unsigned i = 0; i < e->w; i += 8) { E b = C.Extract(e, i, 8); r = r ? C.Concat(r, b) : b; } return r; });
    case Intrinsic::bitreverse: return un([](E e) { E r = nullptr; for (unsigned i = 0; i < e->w; i++) { E b = C.Extract(e, i, 1); r = r ? C.Concat(r, b) : b; } return r; });
    case Intrinsic::umax: return bi([](E a, E b) { return C.Ite(C.Ult(a, b), b, a); });
    case Intrinsic::umin: return bi([](E a, E b) { return C.Ite(C.Ult(a, b), a, b); });
    case Intrinsic::smax: return bi([](E a, E b) { return C.Ite(C.Slt(a, b), b, a); });
    case Intrinsic::smin: return bi([](E a, E b) { return C.Ite(C.Slt(a, b), a, b); });
    case Intrinsic::usub_sat: return bi([](E a, E b) { return C.Ite(C.Ult(a, b), C.K(a->w, 0), C.Sub(a, b)); });
    case Intrinsic::uadd_sat: return bi([](E a, E b) { E r = C.Add(a, b); return C.Ite(C.Ult(r, a), C.allOnes(a->w), r); });
    case Intrinsic::fshl: case Intrinsic::fshr: { E a = A(0), b = A(1), c = A(2); uint32_t w = a->w; c = C.URem(c, C.K(w, w)); E cat = C.Concat(a, b); E cz = C.ZExt(c, 2 * w);
      return ret(id == Intrinsic::fshl ? C.Extract(C.Shl(cat, cz), w, w) : C.Extract(C.LShr(cat, cz), 0, w)); }
    case Intrinsic::uadd_with_overflow: { E a = A(0), b = A(1), r = C.Add(a, b); afterCall(*s, ag({sc(r), sc(C.Ult(r, a))})); return R_CONT; }
    case Intrinsic::usub_with_overflow: { E a = A(0), b = A(1); afterCall(*s, ag({sc(C.Sub(a, b)), sc(C.Ult(a, b))})); return R_CONT; }
    case Intrinsic::umul_with_overflow: { E a = A(0), b = A(1); uint32_t w = a->w; E p = C.Mul(C.ZExt(a, 2 * w), C.ZExt(b, 2 * w)); afterCall(*s, ag({sc(C.Extract(p, 0, w)), sc(C.Ne(C.K(w, 0), C.Extract(p, w, w)))})); return R_CONT; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { E a = A(0), b = A(1); uint32_t w = a->w; E a1 = C.SExt(a, w + 1), b1 = C.SExt(b, w + 1); E r = id == Intrinsic::sadd_with_overflow ? C.Add(a1, b1) : C.Sub(a1, b1); afterCall(*s, ag({sc(C.Extract(r, 0, w)), sc(C.Xor(C.Extract(r, w, 1), C.Extract(r, w - 1, 1)))})); return R_CONT; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { E r = lane(args[0], t0, 0); for (unsigned i = 1; i < nElems(t0); i++) { E q = lane(args[0], t0, i); r = id == Intrinsic::vector_reduce_add ? C.Add(r, q) : id == Intrinsic::vector_reduce_or ? C.Or(r, q) : C.And(r, q); } return ret(r); }
    case Intrinsic::x86_bmi_bextr_64: case Intrinsic::x86_bmi_bextr_32: { E v = A(0), c = A(1); uint32_t w = v->w; E st = C.ZExt(C.Extract(c, 0, 8), w), ln = C.ZExt(C.Extract(c, 8, 8), w); E r = C.LShr(v, st); E m = C.Sub(C.Shl(C.K(w, 1), ln), C.K(w, 1)); return ret(C.And(r, m)); }
    case Intrinsic::x86_bmi_pdep_64: case Intrinsic::x86_bmi_pdep_32: { E src = A(0), m = A(1); uint32_t w = m->w; E r = nullptr; for (unsigned j = 0; j < w; j++) { E cnt = j ? C.ZExt(C.Ctpop(C.Extract(m, 0, j)), w) : C.K(w, 0); if (j && j < 7) cnt = C.ZExt(C.Ctpop(C.ZExt(C.Extract(m, 0, j), 8)), w); E bit = C.And(C.Extract(m, j, 1), C.Extract(C.LShr(src, cnt), 0, 1)); r = r ? C.Concat(bit, r) : bit; } return ret(r); }
    case Intrinsic::x86_mmx_pslli_w: case Intrinsic::x86_mmx_psrli_w: case Intrinsic::x86_mmx_pslli_d: case Intrinsic::x86_mmx_psrli_d: case Intrinsic::x86_mmx_pslli_q: case Intrinsic::x86_mmx_psrli_q: {
      unsigned lw = (id == Intrinsic::x86_mmx_pslli_w || id == Intrinsic::x86_mmx_psrli_w) ? 16 : (id == Intrinsic::x86_mmx_pslli_q || id == Intrinsic::x86_mmx_psrli_q) ? 64 : 32; bool left = id == Intrinsic::x86_mmx_pslli_w || id == Intrinsic::x86_mmx_pslli_d || id == Intrinsic::x86_mmx_pslli_q;
      E v = A(0), c = A(1), r = nullptr; for (unsigned i = 0; i < 64; i += lw) { E l = C.Extract(v, i, lw), k = c->w < lw ? C.ZExt(c, lw) : C.Ite(C.Ult(c, C.K(c->w, lw)), c, C.K(c->w, lw)); if (k->w > lw) k = C.Extract(k, 0, lw); l = left ? C.Shl(l, k) : C.LShr(l, k); r = r ? C.Concat(l, r) : l; } return ret(r); }
    case Intrinsic::x86_mmx_por: return ret(C.Or(A(0), A(1)));
    case Intrinsic::x86_mmx_pand: return ret(C.And(A(0), A(1)));
    case Intrinsic::x86_mmx_pxor: return ret(C.Xor(A(0), A(1)));
    case Intrinsic::x86_mmx_pandn: return ret(C.And(C.Not(A(0)), A(1)));
    case Intrinsic::x86_sse_pshuf_w: { E v = A(0); uint64_t k = A(1)->u64(); E r = nullptr; for (int i = 0; i < 4; i++) { E l = C.Extract(v, 16 * ((k >> (2 * i)) & 3), 16); r = r ? C.Concat(l, r) : l; } return ret(r); }
    case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_avx2_pslli_w: case Intrinsic::x86_avx2_psrli_w: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_psrli_w: {
      bool left = n.find("pslli") != std::string::npos; uint64_t k; { CONC(1, k); } return un([&](E e) { if (k >= e->w) return C.K(e->w, 0); return left ? C.Shl(e, C.K(e->w, k)) : C.LShr(e, C.K(e->w, k)); }); }
    case Intrinsic::x86_avx2_permd: { Type *t1 = cb->getArgOperand(1)->getType(); afterCall(*s, mapLanes(rt, [&](unsigned i) { E ix = C.Extract(lane(args[1], t1, i), 0, 3); E r = lane(args[0], t0, 0); for (unsigned k = 1; k < 8; k++) r = C.Ite(C.Eq(C.K(3, k), ix), lane(args[0], t0, k), r); return r; })); return R_CONT; }
    case Intrinsic::x86_avx2_pmovmskb: { E r = nullptr; for (unsigned i = 0; i < 32; i++) { E l = lane(args[0], t0, i); E b = C.Extract(l, 7, 1); r = r ? C.Concat(b, r) : b; } return ret(r); }
    default: break;
    }
    fail("intrinsic " + n);
  }
  if (n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 7, "_ZStlsI") == 0 || n.compare(0, 8, "_ZSt4end") == 0 || n.compare(0, 9, "_ZSt5flus") == 0 || n.compare(0, 15, "_ZSt16__ostream_") == 0) { stubbed.insert(n); return ret(A(0)); }
  handled = false; return R_CONT;
}

static StepRes doCall(State *&s, llvm::CallBase *cb, Forks &forks) {
  Value *cv = cb->getCalledOperand(); Function *fn = dyn_cast<Function>(cv->stripPointerCasts());
  if (!fn) if (auto *al = dyn_cast<llvm::GlobalAlias>(cv)) fn = dyn_cast<Function>(al->getAliaseeObject());
  if (!fn) {
    if (isa<llvm::InlineAsm>(cv)) { if (cast<llvm::InlineAsm>(cv)->getAsmString().empty()) { if (cb->getType()->isVoidTy()) { afterCall(*s, Val()); return R_CONT; } } fail("inline asm"); }
    uint64_t a; if (!concretize(s, getE(*s, cv), a, forks)) return forks.empty() ? R_DONE : R_FORK;
    auto it = funcById.find(a >> 32); if (it == funcById.end() || (a & 0xffffffff)) { report(*s, "memory", "call through invalid function pointer", s->wit); delete s; return R_DONE; } fn = it->second;
  }
  std::vector<Val> args; for (auto &a : cb->args()) args.push_back(getV(*s, a.get()));
  if (!redirect.empty()) { auto it = redirect.find(fn->getName().str()); if (it != redirect.end()) fn = it->second; }
  auto ct = contracts.find(fn);
  if (ct != contracts.end()) {
    std::vector<E> ea; bool conc = true; for (unsigned i = 0; i < args.size(); i++) { ea.push_back(scalar(args[i], cb->getArgOperand(i)->getType())); conc = conc && ea.back()->isConst(); }
    if (!conc && query(*s, C.Not(ct->second->pre(ea)), nullptr) == UNSAT) {
      E z = fresh(ct->second->zw, "contract"); E post = ct->second->post(ea, z); std::shared_ptr<Model> m;
      if (query(*s, post, &m) == SAT) { summUses++; visited.insert(&*fn->getEntryBlock().begin()); assumePC(*s, post, m); afterCall(*s, sc(ct->second->result(z, bitw(fn->getReturnType())))); return R_CONT; }
    }
  }
  auto sm = summ.find(fn);
  if (sm != summ.end() && sm->second) { std::vector<E> ea; for (unsigned i = 0; i < args.size(); i++) ea.push_back(scalar(args[i], cb->getArgOperand(i)->getType())); summUses++; visited.insert(&*fn->getEntryBlock().begin()); afterCall(*s, sc(sm->second->f(ea))); return R_CONT; }
  if (fn->isDeclaration()) { bool h; StepRes r = builtin(s, cb, fn, args, forks, h); if (h) return r; fail("unmodelled external function " + fn->getName().str() + " at " + backtrace(*s)); }
  for (unsigned i = 0; i < args.size(); i++) if (cb->isByValArgument(i)) { // copy
      Type *t = cb->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(t); uint64_t src; if (!concretize(s, args[i].e, src, forks)) return forks.empty() ? R_DONE : R_FORK;
      uint32_t id = newObj(*s, n, K_STACK); bool term; if (!copyMem(s, addrOf(id), src, n, term)) { delete s; return R_DONE; } args[i] = sc(C.K(64, addrOf(id))); }
  pushFrame(*s, fn, args, cb); return R_CONT;
}

static StepRes fork2(State *s, E c, BasicBlock *bt, BasicBlock *bf, Forks &forks) {
  if (c->isConst()) { jumpTo(*s, c->val.isZero() ? bf : bt); return R_CONT; }
  if (bt == bf) { jumpTo(*s, bt); return R_CONT; }
  bool v = !s->wit->eval(C, c).isZero(); E other = v ? C.Not(c) : c; std::shared_ptr<Model> m; Res r = query(*s, other, &m);
  if (r == UNSAT) { jumpTo(*s, v ? bt : bf); return R_CONT; }
  if (r == UNKNOWN) { jumpTo(*s, v ? bt : bf); return R_CONT; } // already marked incomplete
  nForks++; State *o = clone(s);
  addPC(*s, v ? c : C.Not(c)); jumpTo(*s, v ? bt : bf);
  assumePC(*o, other, m); jumpTo(*o, v ? bf : bt);
  // order: true side first
  if (v) { forks.push_back(s); forks.push_back(o); } else { forks.push_back(o); forks.push_back(s); }
  return R_FORK;
}

static uint64_t rssMb() { static uint64_t last = 0; static double at = 0; double t = now(); if (t - at < 0.2) return last; at = t; FILE *f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return last = b * 4096 / 1048576; }
static StepRes step(State *&s, Forks &forks) {
  Frame &f = s->fr.back(); Instruction *I = &*f.it; nSteps++; s->steps++;
  if ((nSteps & 0xfff) == 0 && now() - tStart > optTime) { markIncomplete("time budget exhausted"); throw StopEntry{}; }
  if ((nSteps & 0xff) == 0 && rssMb() > optMemMb) { markIncomplete("memory budget exhausted"); throw StopEntry{}; }
  if (s->steps > optMaxSteps) { report(*s, "nontermination", "more than " + std::to_string(optMaxSteps) + " instructions on one path", s->wit); delete s; return R_DONE; }
  visited.insert(I);
  auto next = [&]() { ++f.it; return R_CONT; };
  auto OP = [&](unsigned i) { return getE(*s, I->getOperand(i)); };
  Type *T = I->getType();
  switch (I->getOpcode()) {
  case Instruction::Alloca: { auto *a = cast<llvm::AllocaInst>(I); uint64_t n = 1; if (!concretize(s, OP(0), n, forks)) return forks.empty() ? R_DONE : R_FORK;
    uint32_t id = newObj(*s, n * DL->getTypeAllocSize(a->getAllocatedType()), K_STACK); f.allocas.push_back(id); setV(*s, I, sc(C.K(64, addrOf(id)))); return next(); }
  case Instruction::Load: { Val v; if (loadTy(*s, OP(0), T, v) == A_TERM) { delete s; return R_DONE; } setV(*s, I, v); return next(); }
  case Instruction::Store: { if (storeTy(*s, OP(1), I->getOperand(0)->getType(), getV(*s, I->getOperand(0))) == A_TERM) { delete s; return R_DONE; } return next(); }
  case Instruction::GetElementPtr: { E b = OP(0); setV(*s, I, sc(C.Add(b, gepOffset(cast<llvm::GEPOperator>(I), [&](const Value *v) { return getE(*s, v); })))); return next(); }
  case Instruction::PHI: fail("phi");
  case Instruction::Br: { auto *b = cast<llvm::BranchInst>(I); if (b->isUnconditional()) { jumpTo(*s, b->getSuccessor(0)); return R_CONT; } return fork2(s, OP(0), b->getSuccessor(0), b->getSuccessor(1), forks); }
  case Instruction::Switch: { auto *sw = cast<llvm::SwitchInst>(I); E v = OP(0); E rest = C.T(); std::vector<std::pair<BasicBlock *, E>> alts;
    if (v->isConst()) { auto *ci = llvm::ConstantInt::get(I->getContext(), v->val); jumpTo(*s, sw->findCaseValue(ci)->getCaseSuccessor()); return R_CONT; }
    for (auto &cs : sw->cases()) { E c = C.Eq(C.K(cs.getCaseValue()->getValue()), v); rest = C.And(rest, C.Not(c)); bool found = false; for (auto &a : alts) if (a.first == cs.getCaseSuccessor()) { a.second = C.Or(a.second, c); found = true; } if (!found) alts.push_back({cs.getCaseSuccessor(), c}); }
    { bool found = false; for (auto &a : alts) if (a.first == sw->getDefaultDest()) { a.second = C.Or(a.second, rest); found = true; } if (!found) alts.push_back({sw->getDefaultDest(), rest}); }
    std::vector<std::pair<State *, BasicBlock *>> fs;
    for (auto &a : alts) { std::shared_ptr<Model> m; if (query(*s, a.second, &m) != SAT) continue; State *n = clone(s); assumePC(*n, a.second, m); jumpTo(*n, a.first); forks.push_back(n); }
    delete s; s = nullptr; if (forks.empty()) return R_DONE; nForks += forks.size() - 1; return R_FORK; }
  case Instruction::Ret: { Val v; if (I->getNumOperands()) v = getV(*s, I->getOperand(0));
    if (s->fr.size() == 1) { if (s->wantRet) { s->retVals.push_back(v); popFrame(*s); s->jumped = true; return R_CONT; } finishPath(s); delete s; return R_DONE; }
    popFrame(*s); afterCall(*s, v); return R_CONT; }
  case Instruction::Unreachable: report(*s, "unreachable", "control reaches a point the compiler assumes unreachable (undefined behaviour)", s->wit); delete s; return R_DONE;
  case Instruction::Call: case Instruction::Invoke: return doCall(s, cast<llvm::CallBase>(I), forks);
  case Instruction::LandingPad: { auto *lp = cast<llvm::LandingPadInst>(I); int sel = 0;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { auto *cl = lp->getClause(i); uint64_t w = cl->isNullValue() ? 0 : constVal(cl).e->u64(); if (w == 0 || typeMatches(*s, s->excType, w)) { sel = typeId(w); break; } }
    setV(*s, I, ag({sc(C.K(64, s->excObj)), sc(C.K(32, sel))})); return next(); }
  case Instruction::Resume: { StepRes r = unwind(*s, true); if (r == R_DONE) delete s; return r; }
  case Instruction::ICmp: { Type *t = I->getOperand(0)->getType(); Val a = getV(*s, I->getOperand(0)), b = getV(*s, I->getOperand(1)); auto p = cast<llvm::ICmpInst>(I)->getPredicate();
    setV(*s, I, mapLanes(T, [&](unsigned i) { return icmp(p, lane(a, t, i), lane(b, t, i)); })); return next(); }
  case Instruction::Select: { Val c = getV(*s, I->getOperand(0)), a = getV(*s, I->getOperand(1)), b = getV(*s, I->getOperand(2)); Type *ct = I->getOperand(0)->getType();
    if (ct->isVectorTy()) setV(*s, I, mapLanes(T, [&](unsigned i) { return C.Ite(lane(c, ct, i), lane(a, T, i), lane(b, T, i)); }));
    else { E ce = scalar(c, ct); if (ce->isConst()) setV(*s, I, ce->val.isZero() ? b : a); else setV(*s, I, iteVal(ce, a, b, T)); } return next(); }
  case Instruction::Freeze: { Val v = getV(*s, I->getOperand(0)); if (isScalar(T)) v = sc(scalar(v, T)); setV(*s, I, v); return next(); }
  case Instruction::ExtractValue: { Val v = getV(*s, I->getOperand(0)); for (unsigned k : cast<llvm::ExtractValueInst>(I)->indices()) { Val q = (*v.a)[k]; v = q; } setV(*s, I, v); return next(); }
  case Instruction::InsertValue: { auto *iv = cast<llvm::InsertValueInst>(I); Val base = getV(*s, I->getOperand(0)), x = getV(*s, I->getOperand(1));
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val { if (d == iv->getNumIndices()) return x; std::vector<Val> v = *b.a; v[iv->getIndices()[d]] = ins(v[iv->getIndices()[d]], d + 1); return ag(v); };
    setV(*s, I, ins(base, 0)); return next(); }
  case Instruction::ExtractElement: { Val v = getV(*s, I->getOperand(0)); E ix = OP(1); Type *t = I->getOperand(0)->getType(); unsigned n = nElems(t);
    if (ix->isConst()) { setV(*s, I, sc(lane(v, t, ix->u64() % n))); return next(); }
    E r = lane(v, t, 0); for (unsigned k = 1; k < n; k++) r = C.Ite(C.Eq(C.K(ix->w, k), ix), lane(v, t, k), r); setV(*s, I, sc(r)); return next(); }
  case Instruction::InsertElement: { std::vector<Val> v = *getV(*s, I->getOperand(0)).a; Val x = getV(*s, I->getOperand(1)); E ix = OP(2);
    if (ix->isConst()) v[ix->u64() % v.size()] = x; else for (unsigned k = 0; k < v.size(); k++) v[k] = sc(C.Ite(C.Eq(C.K(ix->w, k), ix), x.e, scalar(v[k], elemTy(T, 0)))); setV(*s, I, ag(v)); return next(); }
  case Instruction::ShuffleVector: { auto *sv = cast<llvm::ShuffleVectorInst>(I); Val a = getV(*s, I->getOperand(0)), b = getV(*s, I->getOperand(1)); unsigned n = a.a->size(); std::vector<Val> v; for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val() : (unsigned)m < n ? (*a.a)[m] : (*b.a)[m - n]); setV(*s, I, ag(v)); return next(); }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { Type *t = I->getOperand(0)->getType(); Val a = getV(*s, I->getOperand(0)); uint32_t w = bitw(T->isVectorTy() ? elemTy(T, 0) : T); unsigned op = I->getOpcode();
    setV(*s, I, mapLanes(T, [&](unsigned i) { E x = lane(a, t, i); return op == Instruction::Trunc ? C.Extract(x, 0, w) : op == Instruction::ZExt ? C.ZExt(x, w) : C.SExt(x, w); })); return next(); }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { E x = OP(0); uint32_t w = bitw(T); setV(*s, I, sc(w <= x->w ? C.Extract(x, 0, w) : C.ZExt(x, w))); return next(); }
  case Instruction::AddrSpaceCast: setV(*s, I, getV(*s, I->getOperand(0))); return next();
  case Instruction::BitCast: { Type *t = I->getOperand(0)->getType(); if (isScalar(t) && isScalar(T)) setV(*s, I, sc(OP(0))); else setV(*s, I, unflat(flat(getV(*s, I->getOperand(0)), t), T)); return next(); }
  case Instruction::SIToFP: case Instruction::UIToFP: { uint64_t x; E e = OP(0); if (!concretize(s, e, x, forks)) return forks.empty() ? R_DONE : R_FORK; APInt v(e->w, x); double d = I->getOpcode() == Instruction::SIToFP ? v.signedRoundToDouble() : v.roundToDouble(); if (T->isFloatTy()) { float q = I->getOpcode() == Instruction::SIToFP ? (float)v.getSExtValue() : (float)v.getZExtValue(); setV(*s, I, sc(C.K(32, fpBits(q, T)))); } else setV(*s, I, sc(C.K(64, fpBits(d, T)))); return next(); }
  case Instruction::FPToSI: case Instruction::FPToUI: { uint64_t x; if (!concretize(s, OP(0), x, forks)) return forks.empty() ? R_DONE : R_FORK; double d = fpOf(x, I->getOperand(0)->getType()); setV(*s, I, sc(C.K(bitw(T), I->getOpcode() == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d))); return next(); }
  case Instruction::FPExt: case Instruction::FPTrunc: { uint64_t x; if (T->isX86_FP80Ty() || I->getOperand(0)->getType()->isX86_FP80Ty()) { setV(*s, I, sc(fresh(bitw(T), "fp80"))); return next(); } if (!concretize(s, OP(0), x, forks)) return forks.empty() ? R_DONE : R_FORK; setV(*s, I, sc(C.K(bitw(T), fpBits(fpOf(x, I->getOperand(0)->getType()), T)))); return next(); }
  case Instruction::FNeg: { E x = OP(0); setV(*s, I, sc(C.Xor(x, C.K(APInt::getSignMask(x->w))))); return next(); }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { uint64_t x, y; if (!concretize(s, OP(0), x, forks)) return forks.empty() ? R_DONE : R_FORK; if (!concretize(s, OP(1), y, forks)) return forks.empty() ? R_DONE : R_FORK;
    double a = fpOf(x, T), b = fpOf(y, T), r; if (T->isFloatTy()) { float fa = a, fb = b, fr; switch (I->getOpcode()) { case Instruction::FAdd: fr = fa + fb; break; case Instruction::FSub: fr = fa - fb; break; case Instruction::FMul: fr = fa * fb; break; case Instruction::FDiv: fr = fa / fb; break; default: fr = fmodf(fa, fb); } r = fr; }
    else switch (I->getOpcode()) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); }
    setV(*s, I, sc(C.K(bitw(T), fpBits(r, T)))); return next(); }
  case Instruction::FCmp: { uint64_t x, y; if (!concretize(s, OP(0), x, forks)) return forks.empty() ? R_DONE : R_FORK; if (!concretize(s, OP(1), y, forks)) return forks.empty() ? R_DONE : R_FORK; Type *t = I->getOperand(0)->getType(); double a = fpOf(x, t), b = fpOf(y, t); bool un = std::isnan(a) || std::isnan(b), r;
    switch (cast<llvm::FCmpInst>(I)->getPredicate()) { case llvm::CmpInst::FCMP_OEQ: r = !un && a == b; break; case llvm::CmpInst::FCMP_ONE: r = !un && a != b; break; case llvm::CmpInst::FCMP_OLT: r = a < b; break; case llvm::CmpInst::FCMP_OLE: r = a <= b; break; case llvm::CmpInst::FCMP_OGT: r = a > b; break; case llvm::CmpInst::FCMP_OGE: r = a >= b; break; case llvm::CmpInst::FCMP_UEQ: r = un || a == b; break; case llvm::CmpInst::FCMP_UNE: r = un || a != b; break; case llvm::CmpInst::FCMP_ULT: r = un || a < b; break; case llvm::CmpInst::FCMP_ULE: r = un || a <= b; break; case llvm::CmpInst::FCMP_UGT: r = un || a > b; break; case llvm::CmpInst::FCMP_UGE: r = un || a >= b; break; case llvm::CmpInst::FCMP_ORD: r = !un; break; case llvm::CmpInst::FCMP_UNO: r = un; break; default: fail("fcmp"); }
    setV(*s, I, sc(C.K(1, r))); return next(); }
  case Instruction::Fence: return next();
  case Instruction::AtomicRMW: { auto *rm = cast<llvm::AtomicRMWInst>(I); E p = OP(0), v = OP(1), o; if (memLoad(*s, p, v->w / 8, o) == A_TERM) { delete s; return R_DONE; } E nv; switch (rm->getOperation()) { case llvm::AtomicRMWInst::Add: nv = C.Add(o, v); break; case llvm::AtomicRMWInst::Sub: nv = C.Sub(o, v); break; case llvm::AtomicRMWInst::Xchg: nv = v; break; default: fail("atomicrmw"); } if (memStore(*s, p, nv) == A_TERM) { delete s; return R_DONE; } setV(*s, I, sc(o)); return next(); }
  default: break;
  }
  if (I->isBinaryOp()) {
    unsigned op = I->getOpcode(); Val a = getV(*s, I->getOperand(0)), b = getV(*s, I->getOperand(1));
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
      for (unsigned i = 0; i < (T->isVectorTy() ? nElems(T) : 1); i++) { E d = lane(b, T, i); if (!d->umin.isZero()) continue; E z = C.Eq(C.K(d->w, 0), d); std::shared_ptr<Model> m; Res r = query(*s, z, &m); if (r == SAT) { report(*s, "division", "division by zero", m); E nz = C.Not(z); if (query(*s, nz, &m) != SAT) { delete s; return R_DONE; } assumePC(*s, nz, m); } } }
    setV(*s, I, mapLanes(T, [&](unsigned i) { E x = lane(a, T, i), y = lane(b, T, i);
      switch (op) { case Instruction::Add: return C.Add(x, y); case Instruction::Sub: return C.Sub(x, y); case Instruction::Mul: return C.Mul(x, y); case Instruction::UDiv: return C.UDiv(x, y); case Instruction::SDiv: return C.SDiv(x, y); case Instruction::URem: return C.URem(x, y); case Instruction::SRem: return C.SRem(x, y);
        case Instruction::And: return C.And(x, y); case Instruction::Or: return C.Or(x, y); case Instruction::Xor: return C.Xor(x, y); case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return shiftOp(op, x, y); default: fail(std::string("binop ") + I->getOpcodeName()); } }));
    return next();
  }
  fail(std::string("instruction ") + I->getOpcodeName());
}

// ------------------------------------------------------------------ merging
static bool looksPtr(State &s, uint64_t v) { uint32_t id = v >> 32; return id && id < s.mem.nextId && (s.mem.get(id) || funcById.count(id)); }
static bool ptrConflict(State &a, State &b, E x, E y) {
  if (a.ptrMerge) return false;
  if (x->w != 64 || y->w != 64) return false;
  if (!x->isConst() || !y->isConst()) return false;
  uint64_t p = x->u64(), q = y->u64(); if ((p >> 32) == (q >> 32)) return false;
  bool lp = looksPtr(a, p), lq = looksPtr(b, q);
  return (lp && (lq || q == 0)) || (lq && p == 0);
}
static bool mergeVal(State &a, State &b, E c, const Val &x, const Val &y, Type *t, Val &out) {
  if (x.e && y.e) { if (x.e == y.e) { out = x; return true; } if (ptrConflict(a, b, x.e, y.e)) return false; out = sc(C.Ite(c, x.e, y.e)); return true; }
  if (x.a && y.a) { if (x.a == y.a) { out = x; return true; } std::vector<Val> v(x.a->size()); for (size_t i = 0; i < v.size(); i++) if (!mergeVal(a, b, c, (*x.a)[i], (*y.a)[i], nullptr, v[i])) return false; out = ag(v); return true; }
  if (x.e || y.e) { uint32_t w = (x.e ? x.e : y.e)->w; out = sc(C.Ite(c, x.e ? x.e : fresh(w, "undef"), y.e ? y.e : fresh(w, "undef"))); return true; }
  out = Val(); return true;
}
static bool sameLoc(State *a, State *b) {
  if (a->fr.size() != b->fr.size()) return false; if (a->fr.empty()) return true;
  Frame &x = a->fr.back(), &y = b->fr.back(); return x.fi == y.fi && x.bb == y.bb && x.it == y.it;
}
// merge b into a. fork0: first object id allocated after the fork
static bool mergeStates(State *a, State *b, uint32_t fork0) {
  if (!sameLoc(a, b) || a->inputs.size() != b->inputs.size() || a->obs.size() != b->obs.size() || a->exStack != b->exStack || a->mergeOn != b->mergeOn || a->failAt != b->failAt || a->retVals.size() != b->retVals.size()) return false;
  if (a->inputs != b->inputs) return false;
  size_t k = 0; while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
  E ca = C.T(), cb = C.T(); for (size_t i = k; i < a->pc.size(); i++) ca = C.And(ca, a->pc[i]); for (size_t i = k; i < b->pc.size(); i++) cb = C.And(cb, b->pc[i]);
  E cond = ca; for (size_t i = k; i < a->pc.size() && cond == ca; i++) { E n = C.Not(a->pc[i]); for (size_t j = k; j < b->pc.size(); j++) if (b->pc[j] == n) { cond = a->pc[i]; break; } }
  // values first (so that a refusal leaves a untouched)
  std::vector<Val> nregs; 
  if (!a->fr.empty()) {
    Frame &x = a->fr.back(), &y = b->fr.back(); nregs.resize(x.regs.size()); std::vector<bool> *lv = nullptr;
    bool atBlockStart = x.bb->getFirstNonPHI()->getIterator() == x.it; if (atBlockStart) { x.fi->computeLive(); lv = &x.fi->live[x.bb]; }
    // live[] is live-out; recompute liveness at block start lazily: value is live if used in the block before redefinition or live out
    for (size_t i = 0; i < nregs.size(); i++) {
      const Val &u = x.regs[i], &v = y.regs[i]; if (u.e == v.e && u.a == v.a) { nregs[i] = u; continue; }
      if (lv && !(*lv)[i]) { bool used = false; for (auto *usr : x.fi->byIdx[i]->users()) if (auto *ui = dyn_cast<Instruction>(usr)) if (ui->getParent() == x.bb && !isa<llvm::PHINode>(ui)) { used = true; break; } if (!used) { nregs[i] = Val(); continue; } }
      if (!mergeVal(*a, *b, cond, u, v, nullptr, nregs[i])) return false;
    }
  }
  std::vector<std::pair<uint32_t, ObjP>> upd; size_t np = std::max(a->mem.pages.size(), b->mem.pages.size());
  for (size_t p = 0; p < np; p++) {
    auto pa = p < a->mem.pages.size() ? a->mem.pages[p] : nullptr, pb = p < b->mem.pages.size() ? b->mem.pages[p] : nullptr; if (pa == pb) continue;
    for (unsigned j = 0; j < PG; j++) {
      ObjP oa = pa ? pa->o[j] : nullptr, ob = pb ? pb->o[j] : nullptr; if (oa == ob) continue; uint32_t id = p * PG + j;
      if (!oa || !ob) { if (id < fork0) return false; if (!oa) upd.push_back({id, ob}); continue; }
      if (oa->size != ob->size || oa->kind != ob->kind) return false;
      auto n = std::make_shared<Obj>(*oa); uint64_t sz = oa->size;
      for (uint64_t q = 0; q < sz;) {
        Cell &x = oa->cells[q], &y = ob->cells[q]; if (x.e == y.e && x.idx == y.idx) { q++; continue; }
        auto chunk = [&](ObjP &o) -> unsigned { Cell &c = o->cells[q]; if (!c.e || c.idx) return 1; unsigned m = 1, w = c.e->w / 8; while (m < w && q + m < sz && o->cells[q + m].e == c.e && o->cells[q + m].idx == m) m++; return m == w ? w : 1; };
        unsigned mx = chunk(oa), my = chunk(ob), m = mx == my ? mx : 1;
        E u, v;
        if (m == 1 && mx != my) { // one side holds a wide value: merge over the wider extent
          m = std::max(mx, my); if (q + m > sz) m = 1; u = loadAt(oa.get(), q, m); v = loadAt(ob.get(), q, m);
        } else { u = loadAt(oa.get(), q, m); v = loadAt(ob.get(), q, m); }
        if (u != v && ptrConflict(*a, *b, u, v)) return false;
        storeAt(n.get(), q, C.Ite(cond, u, v)); q += m;
      }
      upd.push_back({id, n});
    }
  }
  for (size_t i = 0; i < a->obs.size(); i++) a->obs[i] = C.Ite(cond, a->obs[i], b->obs[i]);
  for (size_t i = 0; i < a->retVals.size(); i++) { Val o; if (!mergeVal(*a, *b, cond, a->retVals[i], b->retVals[i], nullptr, o)) return false; a->retVals[i] = o; }
  if (!a->fr.empty()) a->fr.back().regs = std::move(nregs);
  for (auto &u : upd) a->mem.put(u.first, u.second);
  a->mem.nextId = std::max(a->mem.nextId, b->mem.nextId);
  E disj = C.Or(ca, cb); a->pc.resize(k); addPC(*a, disj);
  for (auto it = a->known.begin(); it != a->known.end();) { auto q = b->known.find(it->first); if (q == b->known.end() || q->second != it->second) it = a->known.erase(it); else ++it; }
  a->steps = std::max(a->steps, b->steps); a->work = std::max(a->work, b->work); a->alloc = std::max(a->alloc, b->alloc); for (auto r : b->reach) if (std::find(a->reach.begin(), a->reach.end(), r) == a->reach.end()) a->reach.push_back(r);
  nMerges++; return true;
}

struct Target { size_t depth; const BasicBlock *bb; };
static void run(State *s0, Target t, Forks &out);
static void runForks(Forks &fk, State *proto, const FInfo *fi, const BasicBlock *at, size_t depth, Forks &res) {
  // all forks share the frame stack below 'depth'
  const_cast<FInfo *>(fi)->computePdom(); auto it = fi->ipdom.find(at); const BasicBlock *P = it == fi->ipdom.end() ? nullptr : it->second;
  uint32_t fork0 = fk[0]->mem.nextId; for (auto *f : fk) fork0 = std::min(fork0, f->mem.nextId); uint32_t nx = fork0; Forks acc;
  for (auto *f : fk) {
    f->mem.nextId = std::max(f->mem.nextId, nx); Forks o; run(f, Target{depth, P}, o);
    for (auto *q : o) { nx = std::max(nx, q->mem.nextId); bool ok = false; for (auto *a : acc) if (sameLoc(a, q)) { if (mergeStates(a, q, fork0)) { ok = true; delete q; break; } else nMergeRefused++; } if (!ok) acc.push_back(q); }
  }
  for (auto *a : acc) res.push_back(a);
}
static void run(State *s0, Target t, Forks &out) {
  Forks wl; wl.push_back(s0);
  while (!wl.empty()) {
    State *s = wl.back(); wl.pop_back();
    while (true) {
      if (s->jumped) { s->jumped = false; bool stop = s->fr.size() < t.depth || (t.bb && s->fr.size() == t.depth && s->fr.back().bb == t.bb && s->fr.back().it == t.bb->getFirstNonPHI()->getIterator()); if (s->fr.empty()) stop = true; if (stop) { s->jumped = true; out.push_back(s); break; } }
      Forks fk; size_t depth = s->fr.size(); FInfo *fi = s->fr.back().fi; const BasicBlock *at = s->fr.back().bb; bool mg = s->mergeOn;
      pickFork = false; StepRes r = step(s, fk); bool s_pick = pickFork;
      if (r == R_CONT) continue;
      if (r == R_DONE) break;
      if (mg && fk.size() > 1 && !s_pick) { Forks res; runForks(fk, nullptr, fi, at, depth, res); for (auto *q : res) q->jumped = true; wl.insert(wl.end(), res.rbegin(), res.rend()); }
      else for (int i = (int)fk.size() - 1; i >= 0; i--) { wl.push_back(fk[i]); }
      break;
    }
  }
}

// ------------------------------------------------------------------ set-up
static State *initState() {
  State *s = new State(); s->wit = std::make_shared<Model>();
  for (auto &f : *M) { uint32_t id = newObj(*s, 1, K_OPAQUE, true); globalIds[&f] = id; funcById[id] = &f; }
  for (auto &g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; bool ext = g.isDeclaration(); if (ext) sz = std::max<uint64_t>(sz, 512); globalIds[&g] = newObj(*s, sz, ext ? K_OPAQUE : K_GLOBAL); }
  for (auto &g : M->globals()) if (!g.isDeclaration() && g.hasInitializer()) { Obj *o = s->mem.writable(globalIds[&g]); initGlobal(o, 0, g.getInitializer()); if (g.isConstant()) o->ro = true; }
  return s;
}
static void runCtors(State *&s) {
  auto *gc = M->getNamedGlobal("llvm.global_ctors"); if (!gc || !gc->hasInitializer()) return; auto *arr = dyn_cast<llvm::ConstantArray>(gc->getInitializer()); if (!arr) return;
  std::vector<std::pair<uint64_t, Function *>> fs; for (auto &o : arr->operands()) { auto *st = cast<llvm::ConstantStruct>(o.get()); auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if (fn) fs.push_back({cast<llvm::ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &p : fs) { s->wantRet = true; s->retVals.clear(); pushFrame(*s, p.second, {}, nullptr); Forks out; run(s, Target{1, nullptr}, out); if (out.size() != 1) fail("global constructor forks"); s = out[0]; s->wantRet = false; s->retVals.clear(); s->jumped = false; }
}
// prove helper == specification for every argument, then use the specification at call sites
static void proveSummaries(State *base) {
  struct Spec { const char *pat; unsigned nargs; std::function<E(const std::vector<E> &, uint32_t)> f; };
  auto pop = [](const std::vector<E> &a, uint32_t rw) { E r = C.Ctpop(a[0]); return r->w < rw ? C.ZExt(r, rw) : C.Extract(r, 0, rw); };
  auto field = [](E m, uint32_t rw) { E r = C.Ctpop(m); return r->w < rw ? C.ZExt(r, rw) : C.Extract(r, 0, rw); };
  auto sh = [](E x, unsigned k) { return C.LShr(x, C.K(x->w, k)); };
  const uint64_t M2 = 0x5555555555555555ull, M3 = 0x1249249249249249ull;
  std::vector<Spec> specs = {
    {"sim_ds::bit_util::popcnt8(", 1, pop}, {"sim_ds::bit_util::popcnt16(", 1, pop}, {"sim_ds::bit_util::popcnt32(", 1, pop}, {"sim_ds::bit_util::popcnt64(", 1, pop}, {"sim_ds::bit_util::popcnt<", 1, pop},
    {"sim_ds::bit_util::popcnt11(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(x, sh(x, 1)), C.K(64, M2)), rw); }},
    {"sim_ds::bit_util::popcnt10(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(C.Not(x), sh(x, 1)), C.K(64, M2)), rw); }},
    {"sim_ds::bit_util::popcnt111(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(C.And(x, sh(x, 1)), sh(x, 2)), C.K(64, M3)), rw); }},
    {"sim_ds::bit_util::popcnt110(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(C.And(C.Not(x), sh(x, 1)), sh(x, 2)), C.K(64, M3)), rw); }},
    {"sim_ds::bit_util::popcnt101(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(C.And(x, C.Not(sh(x, 1))), sh(x, 2)), C.K(64, M3)), rw); }},
    {"sim_ds::bit_util::popcnt100(", 1, [=](const std::vector<E> &a, uint32_t rw) { E x = a[0]; return field(C.And(C.And(C.And(C.Not(x), C.Not(sh(x, 1))), sh(x, 2)), C.K(64, M3)), rw); }},
  };
  double hard = S->hardTimeout; S->hardTimeout = 40;
  static Contract sel{"sim_ds::bit_util::sel(", 6,
    [](const std::vector<E> &a) { return C.And(C.Ne(a[1], C.K(64, 0)), C.Ule(a[1], C.Ctpop(a[0]))); },
    [](const std::vector<E> &a, E z) { E s = C.ZExt(z, 64); return C.And(C.Extract(C.LShr(a[0], s), 0, 1), C.Eq(C.Ctpop(C.And(a[0], C.Sub(C.Shl(C.K(64, 1), s), C.K(64, 1)))), C.Sub(a[1], C.K(64, 1)))); },
    [](E z, uint32_t w) { return C.Add(C.ZExt(z, w), C.K(w, 1)); }, [](E r, uint32_t zw) { return C.Extract(C.Sub(r, C.K(r->w, 1)), 0, zw); }};
  for (auto &f : *M) {
    if (f.isDeclaration()) continue; std::string d = llvm::demangle(f.getName().str());
    for (auto &sp : specs) { // template functions demangle with a return type in front
      size_t pos = d.find(sp.pat); if (pos == std::string::npos || (pos != 0 && d[pos - 1] != ' ')) continue; if (d.find("::", pos + strlen(sp.pat)) != std::string::npos) continue;
      if (f.arg_size() != sp.nargs || !f.getReturnType()->isIntegerTy() || !f.getArg(0)->getType()->isIntegerTy()) continue;
      std::string note = "not proved"; auto v0 = viols.size(); auto inc0 = incomplete;
      try {
        State *s = clone(base); s->wantRet = true; s->retVals.clear(); std::vector<Val> args; std::vector<E> ea; for (auto &a : f.args()) { E v = fresh(bitw(a.getType()), "summary_arg"); args.push_back(sc(v)); ea.push_back(v); }
        pushFrame(*s, &f, args, nullptr); Forks out; run(s, Target{1, nullptr}, out);
        uint32_t rw = bitw(f.getReturnType()); bool ok = out.size() >= 1 && out.size() <= 8; E spec = sp.f(ea, rw);
        for (auto *o : out) { if (ok) { E bad = C.Ne(scalar(o->retVals[0], f.getReturnType()), spec); if (query(*o, bad, nullptr, true) != UNSAT) ok = false; } delete o; }
        if (ok && viols.size() == v0) { auto *sm = new Summary(); sm->name = d; auto ff = sp.f; sm->f = [ff, rw](const std::vector<E> &a) { return ff(a, rw); }; summ[&f] = sm; note = "proved equal to its specification for every argument"; }
      } catch (EngineError &e) { note = "not proved: " + e.msg; }
      viols.resize(v0); if (!inc0) incomplete = false; summNotes[d] = note; break;
    }
  }
  if (optContracts) for (auto &f : *M) { // proved for every argument that meets the precondition
    if (f.isDeclaration() || llvm::demangle(f.getName().str()).find(sel.name) != 0 || f.arg_size() != 2 || !f.getArg(0)->getType()->isIntegerTy(64) || !f.getArg(1)->getType()->isIntegerTy(64) || !f.getReturnType()->isIntegerTy()) continue;
    std::string note = "contract not proved"; auto v0 = viols.size(); auto inc0 = incomplete;
    try {
      State *s = clone(base); s->wantRet = true; s->retVals.clear(); std::vector<E> ea = {fresh(64, "arg"), fresh(64, "arg")}; std::shared_ptr<Model> m; E pre = sel.pre(ea);
      if (query(*s, pre, &m) != SAT) continue; assumePC(*s, pre, m); pushFrame(*s, &f, {sc(ea[0]), sc(ea[1])}, nullptr); Forks out; run(s, Target{1, nullptr}, out);
      bool ok = out.size() >= 1 && out.size() <= 64; uint32_t rw = bitw(f.getReturnType());
      for (auto *o : out) { if (ok) { E r = scalar(o->retVals[0], f.getReturnType()); E z = sel.inverse(r, sel.zw); for (E good : {C.Eq(r, sel.result(z, rw)), sel.post(ea, z)}) if (query(*o, C.Not(good), nullptr, true) != UNSAT) ok = false; } delete o; }
      if (ok && viols.size() == v0) { contracts[&f] = &sel; note = "contract (names the i-th 1 bit) proved for every word and every valid i"; }
    } catch (EngineError &e) { note = "contract not proved: " + e.msg; }
    viols.resize(v0); if (!inc0) incomplete = false; summNotes[llvm::demangle(f.getName().str())] = note;
  }
  violSeen.clear(); S->hardTimeout = hard;
}

static std::string mainOut; static std::string entryName; static std::string bcFile;
static int result = 0;
static void emit(const std::string &status, const std::string &why) {
  std::string o = "{\"entry\":" + jstr(entryName) + ",\"status\":" + jstr(status) + ",\"why\":" + jstr(why);
  auto num = [&](const char *k, double v) { char b[64]; if (v == (uint64_t)v) snprintf(b, 64, ",\"%s\":%llu", k, (unsigned long long)v); else snprintf(b, 64, ",\"%s\":%.4f", k, v); o += b; };
  num("paths", nPaths); num("instructions", nSteps); num("forks", nForks); num("merges", nMerges); num("merges_refused", nMergeRefused); num("asserts", nAsserts); num("asserts_simplified_true", nAssertTrivial); num("assert_queries", nAssertQueries); num("memory_checks", nMemChecks); num("enumerations", nConcretize); num("oversized_shift_sites", nUb);
  num("queries", S->st.queries); num("queries_sat", S->st.sat); num("queries_unsat", S->st.unsat); num("queries_unknown", S->st.unknown); num("queries_cached", S->st.cached); num("kissat_queries", S->st.kissat); num("z3_queries", S->st.z3); num("z3_crosschecked", S->st.xchecked); num("solver_s", S->st.time); num("max_query_s", S->st.maxq); num("summary_uses", summUses); num("expr_nodes", C.nodes.size()); num("variables", C.vars.size()); num("wall_s", now() - tStart);
  o += ",\"reach\":{"; bool first = true; for (auto &r : reachCount) { o += (first ? "" : ",") + jstr(r.first) + ":" + std::to_string(r.second); first = false; } o += "}";
  o += ",\"summaries\":{"; first = true; for (auto &r : summNotes) { o += (first ? "" : ",") + jstr(r.first) + ":" + jstr(r.second); first = false; } o += "}";
  o += ",\"stubs\":["; first = true; for (auto &r : stubbed) { o += (first ? "" : ",") + jstr(r); first = false; } o += "]";
  std::set<std::string> fns; std::set<std::pair<std::string, unsigned>> lines;
  for (auto *i : visited) { if (auto &d = i->getDebugLoc()) { for (const llvm::DILocation *L = d.get(); L; L = L->getInlinedAt()) { auto *sp = L->getScope()->getSubprogram(); std::string fl = L->getFilename().str(); if (sp && fl.find("sim_ds/") != std::string::npos) { std::string ln = sp->getLinkageName().str(); std::string nm = ln.empty() ? sp->getName().str() : llvm::demangle(ln); fns.insert(nm); lines.insert({fl.substr(fl.find("sim_ds/")), L->getLine()}); } } } }
  o += ",\"functions\":["; first = true; for (auto &r : fns) { o += (first ? "" : ",") + jstr(r); first = false; } o += "],\"source_lines\":" + std::to_string(lines.size());
  auto lst = [&](const std::vector<std::string> &v, bool q) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + (q ? jstr(v[i]) : v[i]); return r + "]"; };
  o += ",\"violations\":["; first = true; for (auto &v : viols) { o += std::string(first ? "" : ",") + "{\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"loc\":" + jstr(v.loc) + ",\"inputs\":" + lst(v.inputs, false) + "}"; first = false; } o += "]";
  o += ",\"witnesses\":["; first = true; for (auto &w : wits) { o += std::string(first ? "" : ",") + "{\"inputs\":" + lst(w.inputs, false) + ",\"obs\":" + lst(w.obs, false) + ",\"reach\":" + lst(w.reach, true) + "}"; first = false; } o += "]}\n";
  if (mainOut.empty()) fputs(o.c_str(), stdout); else { FILE *fp = fopen(mainOut.c_str(), "w"); fputs(o.c_str(), fp); fclose(fp); }
}
static void *mainThread(void *) {
  State *s = nullptr;
  try {
    Function *fn = M->getFunction(entryName); if (!fn) fail("no such entry " + entryName);
    s = initState();
    struct { const char *from, *to; } rd[] = {{"_ZNSo5writeEPKcl", "__rt_os_write"}, {"_ZNSi4readEPcl", "__rt_is_read"}, {"_ZNSo3putEc", "__rt_os_put"}, {"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "__rt_os_text"}, {"_ZNSolsEi", "__rt_os_i"}, {"_ZNSo9_M_insertImEERSoT_", "__rt_os_m"}, {"_ZNSo9_M_insertIdEERSoT_", "__rt_os_d"}, {"_ZNSo9_M_insertIlEERSoT_", "__rt_os_m"}, {"_ZNSo9_M_insertIbEERSoT_", "__rt_os_b"}, {"_ZNSo9_M_insertIPKvEERSoT_", "__rt_os_m"}, {"_ZNSo5flushEv", "__rt_os_endl"}, {"_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "__rt_os_endl"}, {"_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "__rt_os_endl"}, {"strlen", "__rt_strlen"}, {"memchr", "__rt_memchr"},
      {"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "__rt_rb_insert"}, {"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "__rt_rb_inc"}, {"_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "__rt_rb_inc"}, {"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "__rt_rb_dec"}, {"_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", "__rt_rb_dec"}};
    for (auto &r : rd) if (auto *t = M->getFunction(r.to)) if (!t->isDeclaration()) redirect[r.from] = t;
    runCtors(s);
    if (!optNoSumm) proveSummaries(s);
    tStart = now(); S->deadline = tStart + optTime + 1; visited.clear();
    pushFrame(*s, fn, {}, nullptr); s->steps = 0; Forks out; run(s, Target{0, nullptr}, out);
    for (auto *o : out) delete o;
    emit(viols.size() ? "violated" : incomplete ? "incomplete" : "ok", incompleteWhy);
  } catch (EngineError &e) { emit("error", e.msg); result = 3; }
  catch (StopEntry &) { emit(viols.size() ? "violated" : "incomplete", incompleteWhy); }
  return nullptr;
}
int main(int argc, char **argv) {
  bool list = false; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--ub-mask") optUbMask = true; else if (a == "--list") list = true; else if (a == "-v") optVerbose = true; else if (a == "--no-summaries") optNoSumm = true;
    else if (a == "--time") optTime = atof(argv[++i]); else if (a == "--max-steps") optMaxSteps = atoll(argv[++i]); else if (a == "--out") mainOut = argv[++i]; else if (a == "--contracts") optContracts = true; else if (a == "--xcheck") S = nullptr, setenv("SX_XCHECK", "1", 1); else if (a == "--max-viol") optMaxViol = atoi(argv[++i]); else if (a == "--witnesses") optWitness = atoi(argv[++i]);
    else pos.push_back(a); }
  if (pos.empty()) { fprintf(stderr, "usage: symex file.bc entry [options]\n"); return 2; }
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto mod = llvm::parseIRFile(pos[0], err, ctx); if (!mod) { err.print("symex", llvm::errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); bcFile = pos[0];
  if (list) { for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) printf("%s\n", f.getName().str().c_str()); return 0; }
  entryName = pos[1]; S = new Solver(C); if (getenv("SX_XCHECK")) S->xcheck = true; tStart = now();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8ull << 30); pthread_t th;
  if (pthread_create(&th, &at, mainThread, nullptr)) { fprintf(stderr, "thread\n"); return 2; }
  pthread_join(th, nullptr); fflush(stdout); _exit(result);
}
