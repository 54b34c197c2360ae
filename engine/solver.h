// QF_BV decision procedure: bit-blasting to an AIG with structural hashing, incremental CDCL (MiniSat),
// kissat for hard queries, z3 as an independent second opinion / fallback.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <cstring>
#ifndef __STDC_LIMIT_MACROS
#define __STDC_LIMIT_MACROS
#endif
#ifndef __STDC_FORMAT_MACROS
#define __STDC_FORMAT_MACROS
#endif
#include <cinttypes>
#include "minisat/core/Solver.h"

namespace sx {
using Minisat::lbool;
static inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------- AIG
using Lit = int32_t; // 2*node + sign; node 0 = const false => lit 0 false, lit 1 true
struct Gate { uint8_t type; Lit a, b, c; uint32_t var; };  // 0 const,1 input,2 and,3 xor,4 mux(a?b:c)
class Aig {
public:
  std::vector<Gate> g;
  struct GK { uint8_t t; Lit a, b, c; bool operator==(const GK &o) const { return t == o.t && a == o.a && b == o.b && c == o.c; } };
  struct GH { size_t operator()(const GK &k) const { size_t h = k.t; h = h * 0x9E3779B97F4A7C15ull + (uint32_t)k.a; h ^= h >> 31; h = h * 0xBF58476D1CE4E5B9ull + (uint32_t)k.b; h ^= h >> 29; h = h * 0x94D049BB133111EBull + (uint32_t)k.c; h ^= h >> 32; return h; } };
  std::unordered_map<GK, Lit, GH> tab;
  Aig() { g.push_back({0, 0, 0, 0, 0}); }
  Lit mk(uint8_t t, Lit a, Lit b, Lit c) {
    GK k{t, a, b, c}; auto it = tab.find(k); if (it != tab.end()) return it->second;
    Lit l = 2 * (Lit)g.size(); g.push_back({t, a, b, c, 0}); tab[k] = l; return l;
  }
  Lit input(uint32_t var, uint32_t bit) { Lit l = 2 * (Lit)g.size(); g.push_back({1, (Lit)var, (Lit)bit, 0, 0}); return l; }
  Lit And(Lit a, Lit b) {
    if (a > b) std::swap(a, b);
    if (a == 0) return 0; if (a == 1) return b; if (a == b) return a; if (a == (b ^ 1)) return 0;
    // one-level rules
    for (int t = 0; t < 2; t++) {
      Gate &y = g[b >> 1];
      if (y.type == 2) {
        if (!(b & 1)) { if (y.a == a || y.b == a) return b; if (y.a == (a ^ 1) || y.b == (a ^ 1)) return 0; }
        else { if (y.a == (a ^ 1) || y.b == (a ^ 1)) return a;
               if (y.a == a) { Lit o = y.b ^ 1; return And(a, o); }
               if (y.b == a) { Lit o = y.a ^ 1; return And(a, o); } }
      }
      std::swap(a, b);
    }
    if (a > b) std::swap(a, b);
    return mk(2, a, b, 0);
  }
  Lit Or(Lit a, Lit b) { return And(a ^ 1, b ^ 1) ^ 1; }
  Lit Xor(Lit a, Lit b) {
    Lit s = (a & 1) ^ (b & 1); a &= ~1; b &= ~1;
    if (a == b) return s; if (a > b) std::swap(a, b);
    if (a == 0) return b ^ s;
    Gate &y = g[b >> 1];
    if (y.type == 3) { if (y.a == a) return y.b ^ s; if (y.b == a) return y.a ^ s; }
    Gate &x = g[a >> 1];
    if (x.type == 3) { if (x.a == b) return x.b ^ s; if (x.b == b) return x.a ^ s; }
    return mk(3, a, b, 0) ^ s;
  }
  Lit Mux(Lit c, Lit t, Lit e) {
    if (c == 1) return t; if (c == 0) return e; if (t == e) return t;
    if (c & 1) { c ^= 1; std::swap(t, e); }
    if (t == 1) return Or(c, e); if (t == 0) return And(c ^ 1, e);
    if (e == 1) return Or(c ^ 1, t); if (e == 0) return And(c, t);
    if (t == (e ^ 1)) return Xor(c, e);
    if (t == c) return Or(c, e); if (t == (c ^ 1)) return And(c ^ 1, e);
    if (e == c) return And(c, t); if (e == (c ^ 1)) return Or(c ^ 1, t);
    Lit s = t & 1; t ^= s; e ^= s;
    return mk(4, c, t, e) ^ s;
  }
};

enum Res { SAT, UNSAT, UNKNOWN };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, trivial = 0, cached = 0, kissat = 0, z3 = 0, xchecked = 0; double time = 0, maxq = 0; };

class Solver {
public:
  Ctx &C; Aig A; SolverStats st;
  Minisat::Solver *ms = nullptr;
  std::vector<int> satVar;      // gate -> minisat var+1 in current solver
  std::vector<uint32_t> mark; uint32_t markEpoch = 0;
  std::vector<int> decisionOn;
  std::string tmpdir;
  double hardTimeout = 300;     // seconds for kissat on one query
  double deadline = 0;          // wall-clock end of the entry's budget; later queries are answered 'unknown'
  double left(double most) { if (deadline <= 0) return most; double l = deadline - now(); return l < most ? l : most; }
  int64_t confBudget = 20000;
  bool xcheck = false;
  Z3_context z = nullptr;
  std::vector<std::vector<Lit>> varBits; // var index -> lits
  Solver(Ctx &c) : C(c) { ms = newMs(); const char *t = getenv("SX_TMP"); tmpdir = t ? t : "/tmp"; }
  Minisat::Solver *newMs() { auto *s = new Minisat::Solver(); s->verbosity = 0; s->phase_saving = 2; return s; }

  // ---------- bit blasting
  typedef std::vector<Lit> BV;
  BV add(const BV &a, const BV &b, Lit cin) {
    BV r(a.size()); Lit c = cin;
    for (size_t i = 0; i < a.size(); i++) {
      Lit x = A.Xor(a[i], b[i]); r[i] = A.Xor(x, c);
      if (i + 1 < a.size()) c = A.Or(A.And(a[i], b[i]), A.And(c, x));
    }
    return r;
  }
  BV neg(const BV &a) { BV n(a.size()); for (size_t i = 0; i < a.size(); i++) n[i] = a[i] ^ 1; BV z(a.size(), 0); return add(n, z, 1); }
  Lit ult(const BV &a, const BV &b) { Lit r = 0; for (size_t i = 0; i < a.size(); i++) { Lit x = A.Xor(a[i], b[i]); r = A.Mux(x, b[i], r); } return r; }
  Lit eq(const BV &a, const BV &b) { std::vector<Lit> t; for (size_t i = 0; i < a.size(); i++) { Lit x = A.Xor(a[i], b[i]) ^ 1; if (x == 0) return 0; t.push_back(x); }
    // balanced conjunction
    while (t.size() > 1) { std::vector<Lit> u; for (size_t i = 0; i + 1 < t.size(); i += 2) u.push_back(A.And(t[i], t[i + 1])); if (t.size() & 1) u.push_back(t.back()); t.swap(u); }
    return t.empty() ? 1 : t[0]; }
  BV shift(const BV &a, const BV &s, int kind) { // 0 shl 1 lshr 2 ashr
    BV r = a; size_t w = a.size(); Lit fill = kind == 2 ? a.back() : 0;
    size_t k = 0;
    for (; k < s.size() && ((uint64_t)1 << k) < w; k++) {
      size_t d = (size_t)1 << k; BV n(w);
      for (size_t i = 0; i < w; i++) {
        Lit sh = kind == 0 ? (i >= d ? r[i - d] : 0) : (i + d < w ? r[i + d] : fill);
        n[i] = A.Mux(s[k], sh, r[i]);
      }
      r.swap(n);
    }
    Lit big = 0; for (; k < s.size(); k++) big = A.Or(big, s[k]);
    if (big != 0) for (size_t i = 0; i < w; i++) r[i] = A.Mux(big, fill, r[i]);
    return r;
  }
  BV mul(const BV &a0, const BV &b0) {
    size_t w = a0.size();
    // choose multiplier with fewer non-zero literals
    auto nz = [](const BV &v) { size_t n = 0; for (auto l : v) n += l != 0; return n; };
    const BV &a = nz(a0) <= nz(b0) ? a0 : b0; const BV &b = nz(a0) <= nz(b0) ? b0 : a0;
    BV r(w, 0);
    for (size_t i = 0; i < w; i++) {
      if (a[i] == 0) continue;
      BV p(w, 0); for (size_t j = 0; i + j < w; j++) p[i + j] = A.And(a[i], b[j]);
      r = add(r, p, 0);
    }
    return r;
  }
  void divrem(const BV &a, const BV &b, BV &q, BV &r) {
    size_t w = a.size(); q.assign(w, 0); r.assign(w, 0);
    BV rem(w + 1, 0); BV bx = b; bx.push_back(0);
    for (int i = (int)w - 1; i >= 0; i--) {
      for (int j = (int)w; j > 0; j--) rem[j] = rem[j - 1];
      rem[0] = a[i];
      Lit lt = ult(rem, bx);
      BV nb(w + 1); for (size_t j = 0; j <= w; j++) nb[j] = bx[j] ^ 1;
      BV d = add(rem, nb, 1);
      for (size_t j = 0; j <= w; j++) rem[j] = A.Mux(lt, rem[j], d[j]);
      q[i] = lt ^ 1;
    }
    for (size_t j = 0; j < w; j++) r[j] = rem[j];
    // division by zero: q = all ones, r = a (falls out: rem>=0 always => q all ones; r = a)
  }
  BV popc(const BV &v, size_t lo, size_t hi, size_t w) { // balanced tree on power-of-two aligned halves
    size_t n = hi - lo;
    if (n == 1) return BV{v[lo]};
    size_t half = 1; while (half * 2 < n) half *= 2;
    BV x = popc(v, lo, lo + half, w), y = popc(v, lo + half, hi, w);
    size_t m = std::max(x.size(), y.size()) + 1; x.resize(m, 0); y.resize(m, 0);
    BV r = add(x, y, 0);
    size_t need = 1; while (((size_t)1 << need) <= n) need++;
    if (r.size() > need) r.resize(need);
    return r;
  }
  const BV &bitsOf(E root) {
    if (root->bits) return *root->bits;
    std::vector<std::pair<E, int>> stk; stk.push_back({root, 0});
    while (!stk.empty()) {
      E e = stk.back().first;
      if (e->bits) { stk.pop_back(); continue; }
      if (!stk.back().second) { stk.back().second = 1; for (int i = 0; i < 3; i++) if (e->c[i] && !e->c[i]->bits) stk.push_back({e->c[i], 0}); continue; }
      stk.pop_back();
      e->bits = new BV(blast(e));
    }
    return *root->bits;
  }
  BV blast(E e) {
    uint32_t w = e->w; BV r(w);
    auto B = [&](int i) -> const BV & { return *e->c[i]->bits; };
    switch (e->op) {
    case O_CONST: for (unsigned i = 0; i < w; i++) r[i] = e->val[i] ? 1 : 0; break;
    case O_VAR: { if (varBits.size() <= e->lo) varBits.resize(e->lo + 1);
      for (unsigned i = 0; i < w; i++) r[i] = (e->kz[i] ? 0 : e->ko[i] ? 1 : A.input(e->lo, i)); varBits[e->lo] = r; break; }
    case O_ADD: r = add(B(0), B(1), 0); break;
    case O_SUB: { BV n(w); for (unsigned i = 0; i < w; i++) n[i] = B(1)[i] ^ 1; r = add(B(0), n, 1); break; }
    case O_MUL: r = mul(B(0), B(1)); break;
    case O_UDIV: { BV q; divrem(B(0), B(1), q, r); r = q; break; }
    case O_UREM: { BV q; divrem(B(0), B(1), q, r); break; }
    case O_SDIV: case O_SREM: {
      const BV &a = B(0), &b = B(1); Lit sa = a[w - 1], sb = b[w - 1]; BV na = neg(a), nb = neg(b), aa(w), ab(w);
      for (unsigned i = 0; i < w; i++) { aa[i] = A.Mux(sa, na[i], a[i]); ab[i] = A.Mux(sb, nb[i], b[i]); }
      BV q, rr; divrem(aa, ab, q, rr);
      if (e->op == O_SDIV) { BV nq = neg(q); Lit s = A.Xor(sa, sb); for (unsigned i = 0; i < w; i++) r[i] = A.Mux(s, nq[i], q[i]); }
      else { BV nr = neg(rr); for (unsigned i = 0; i < w; i++) r[i] = A.Mux(sa, nr[i], rr[i]); }
      break; }
    case O_AND: for (unsigned i = 0; i < w; i++) r[i] = A.And(B(0)[i], B(1)[i]); break;
    case O_OR: for (unsigned i = 0; i < w; i++) r[i] = A.Or(B(0)[i], B(1)[i]); break;
    case O_XOR: for (unsigned i = 0; i < w; i++) r[i] = A.Xor(B(0)[i], B(1)[i]); break;
    case O_SHL: r = shift(B(0), B(1), 0); break;
    case O_LSHR: r = shift(B(0), B(1), 1); break;
    case O_ASHR: r = shift(B(0), B(1), 2); break;
    case O_EQ: r[0] = eq(B(0), B(1)); break;
    case O_ULT: r[0] = ult(B(0), B(1)); break;
    case O_SLT: { BV a = B(0), b = B(1); a.back() ^= 1; b.back() ^= 1; r[0] = ult(a, b); break; }
    case O_ITE: for (unsigned i = 0; i < w; i++) r[i] = A.Mux(B(0)[0], B(1)[i], B(2)[i]); break;
    case O_EXTRACT: for (unsigned i = 0; i < w; i++) r[i] = B(0)[e->lo + i]; break;
    case O_CONCAT: { unsigned lw = e->c[1]->w; for (unsigned i = 0; i < w; i++) r[i] = i < lw ? B(1)[i] : B(0)[i - lw]; break; }
    case O_ZEXT: for (unsigned i = 0; i < w; i++) r[i] = i < e->c[0]->w ? B(0)[i] : 0; break;
    case O_SEXT: for (unsigned i = 0; i < w; i++) r[i] = i < e->c[0]->w ? B(0)[i] : B(0).back(); break;
    case O_CTPOP: { BV p = popc(B(0), 0, w, w); p.resize(w, 0); r = p; break; }
    }
    return r;
  }

  // ---------- SAT
  Minisat::Lit sl(Lit l) { return Minisat::mkLit(satVar[l >> 1] - 1, l & 1); }
  bool okMs = true;
  void encodeCone(const std::vector<Lit> &roots, std::vector<uint32_t> &cone) {
    markEpoch++; mark.resize(A.g.size(), 0); satVar.resize(A.g.size(), 0);
    std::vector<uint32_t> stk; for (auto l : roots) if (mark[l >> 1] != markEpoch) { mark[l >> 1] = markEpoch; stk.push_back(l >> 1); }
    while (!stk.empty()) {
      uint32_t n = stk.back(); stk.pop_back(); cone.push_back(n);
      Gate &gt = A.g[n];
      auto push = [&](Lit l) { uint32_t m = l >> 1; if (mark[m] != markEpoch) { mark[m] = markEpoch; stk.push_back(m); } };
      if (gt.type >= 2) { push(gt.a); push(gt.b); if (gt.type == 4) push(gt.c); }
    }
  }
  void ensureEncoded(const std::vector<uint32_t> &cone) {
    for (uint32_t n : cone) if (!satVar[n]) { satVar[n] = ms->newVar(l_Undef, false) + 1; newGates.push_back(n); }
    for (uint32_t n : newGates) {
      Gate &gt = A.g[n]; Minisat::Lit o = Minisat::mkLit(satVar[n] - 1);
      if (gt.type == 0) { ms->addClause(~o); }
      else if (gt.type == 2) { auto a = sl(gt.a), b = sl(gt.b); ms->addClause(~o, a); ms->addClause(~o, b); ms->addClause(o, ~a, ~b); }
      else if (gt.type == 3) { auto a = sl(gt.a), b = sl(gt.b); ms->addClause(~o, a, b); ms->addClause(~o, ~a, ~b); ms->addClause(o, ~a, b); ms->addClause(o, a, ~b); }
      else if (gt.type == 4) { auto c = sl(gt.a), t = sl(gt.b), e = sl(gt.c);
        ms->addClause(~c, ~t, o); ms->addClause(~c, t, ~o); ms->addClause(c, ~e, o); ms->addClause(c, e, ~o); ms->addClause(~t, ~e, o); ms->addClause(t, e, ~o); }
    }
    newGates.clear();
  }
  std::vector<uint32_t> newGates;

  // range constraints of variables as expressions
  void rangeLits(const Support &sup, std::vector<E> &out) {
    for (auto v : sup) { auto &vi = C.vars[v]; if (!vi.ranged) continue;
      if (rangeE.size() <= v) rangeE.resize(v + 1, nullptr);
      if (!rangeE[v]) { // build raw comparisons (the simplifier would fold them using the declared range)
        E e = vi.e; E lo = C.raw(O_ULT, 1, e, C.K(vi.lo)); E hi = C.raw(O_ULT, 1, C.K(vi.hi), e);
        E both = C.raw(O_OR, 1, lo, hi); rangeE[v] = both; }
      out.push_back(rangeE[v]); // negated range; caller asserts NOT
    }
  }
  std::vector<E> rangeE;

  struct VecH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
  std::unordered_map<std::vector<uint32_t>, std::pair<int, std::shared_ptr<Model>>, VecH> cache;

  // constraints: conjunction; returns model over involved variables
  Res check(const std::vector<E> &cons, std::shared_ptr<Model> *out, bool isAssert = false) {
    std::vector<E> cs; 
    for (E e : cons) { if (e->isConst()) { if (e->val.isZero()) { st.trivial++; return UNSAT; } continue; } cs.push_back(e); }
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    if (cs.empty()) { st.trivial++; if (out) *out = std::make_shared<Model>(); return SAT; }
    std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id);
    auto it = cache.find(key);
    if (it != cache.end()) { st.cached++; if (out) *out = it->second.second; return (Res)it->second.first; }
    double t0 = now(); st.queries++;
    std::shared_ptr<Model> m; 
    Res r = solve(cs, m, isAssert);
    double dt = now() - t0; st.time += dt; st.maxq = std::max(st.maxq, dt);
    if (getenv("SX_DEBUGQ") && dt > 0.5) { fprintf(stderr, "[slow query %.2fs res=%d n=%zu]\n", dt, r, cs.size()); if (dt > 5) for (E e : cs) fprintf(stderr, "   %s\n", C.str(e, 5).substr(0, 2000).c_str()); }
    if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
    if (r != UNKNOWN) cache[key] = {r, m};
    if (out) *out = m;
    return r;
  }
  void extractModel(const std::vector<E> &cs, const std::function<int(uint32_t)> &gateVal, std::shared_ptr<Model> &m) {
    m = std::make_shared<Model>();
    const Support *s = C.emptySup; for (E e : cs) s = C.uni(s, e->sup);
    for (auto v : *s) { E e = C.vars[v].e; APInt x = e->ko; 
      if (e->bits) for (unsigned i = 0; i < e->w; i++) { Lit l = (*e->bits)[i]; if (l >= 2 && (gateVal(l >> 1) ^ (l & 1))) x.setBit(i); }
      else x = C.vars[v].lo;
      m->set(v, x); }
  }
  Res solve(const std::vector<E> &cs, std::shared_ptr<Model> &m, bool isAssert) {
    const Support *s = C.emptySup; for (E e : cs) s = C.uni(s, e->sup);
    std::vector<Lit> roots;
    for (E e : cs) { Lit l = bitsOf(e)[0]; if (l == 0) return UNSAT; if (l != 1) roots.push_back(l); }
    std::vector<E> rng; rangeLits(*s, rng);
    for (E e : rng) { Lit l = bitsOf(e)[0] ^ 1; if (l == 0) return UNSAT; if (l != 1) roots.push_back(l); }
    std::sort(roots.begin(), roots.end()); roots.erase(std::unique(roots.begin(), roots.end()), roots.end());
    for (size_t i = 0; i + 1 < roots.size(); i++) if ((roots[i] ^ 1) == roots[i + 1]) return UNSAT;
    std::vector<uint32_t> cone; encodeCone(roots, cone);
    if (ms->nVars() > 600000 || ms->nClauses() + ms->nLearnts() > 4000000 || !okMs) { delete ms; ms = newMs(); okMs = true; std::fill(satVar.begin(), satVar.end(), 0); decisionOn.clear(); }
    if (xcheck && isAssert) { Res zr = z3check(cs, 20000, nullptr); if (zr != UNKNOWN) { st.xchecked++; xres = zr; } else xres = UNKNOWN; }
    Res res = UNKNOWN;
    if (cone.size() < 400000) {
      ensureEncoded(cone);
      for (int v : decisionOn) ms->setDecisionVar(v, false);
      decisionOn.clear();
      for (uint32_t n : cone) { int v = satVar[n] - 1; decisionOn.push_back(v); ms->setDecisionVar(v, true); }
      Minisat::vec<Minisat::Lit> as; for (auto l : roots) as.push(sl(l));
      ms->setConfBudget(confBudget);
      Minisat::lbool r = ms->solveLimited(as);
      if (!ms->okay()) { okMs = false; fprintf(stderr, "engine: SAT solver inconsistent\n"); abort(); }
      if (r == l_True) { extractModel(cs, [&](uint32_t n) { return (int)(satVar[n] && ms->modelValue(satVar[n] - 1) == l_True); }, m); res = SAT; }
      else if (r == l_False) res = UNSAT;
      ms->budgetOff();
    }
    if (res == UNKNOWN && left(1) > 0) res = kissat(cs, roots, cone, m);
    if (res == UNKNOWN && left(1) > 0.5) { st.z3++; res = z3check(cs, (unsigned)(left(120) * 1000), &m); }
    if (res == SAT) { // validate
      for (E e : cs) if (m->eval(C, e).isZero()) { fprintf(stderr, "engine: model does not satisfy constraint %s\n", C.str(e).c_str()); abort(); }
    }
    if (xcheck && isAssert && xres != UNKNOWN && res != UNKNOWN && xres != res) { fprintf(stderr, "engine: SOLVER DISAGREEMENT\n"); abort(); }
    return res;
  }
  Res xres = UNKNOWN;
  Res kissat(const std::vector<E> &cs, const std::vector<Lit> &roots, std::vector<uint32_t> &cone, std::shared_ptr<Model> &m) {
    st.kissat++;
    std::sort(cone.begin(), cone.end());
    std::unordered_map<uint32_t, int> num; for (size_t i = 0; i < cone.size(); i++) num[cone[i]] = i + 1;
    std::string f = tmpdir + "/q" + std::to_string(getpid()) + ".cnf", o = f + ".out";
    FILE *fp = fopen(f.c_str(), "w"); if (!fp) return UNKNOWN;
    size_t nc = roots.size();
    for (auto n : cone) { auto t = A.g[n].type; nc += t == 0 ? 1 : t == 2 ? 3 : t == 3 ? 4 : t == 4 ? 6 : 0; }
    fprintf(fp, "p cnf %zu %zu\n", cone.size(), nc);
    auto L = [&](Lit l) { int v = num[l >> 1]; return (l & 1) ? -v : v; };
    for (auto n : cone) { Gate &g = A.g[n]; int x = num[n];
      if (g.type == 0) fprintf(fp, "%d 0\n", -x);
      else if (g.type == 2) { int a = L(g.a), b = L(g.b); fprintf(fp, "%d %d 0\n%d %d 0\n%d %d %d 0\n", -x, a, -x, b, x, -a, -b); }
      else if (g.type == 3) { int a = L(g.a), b = L(g.b); fprintf(fp, "%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n", -x, a, b, -x, -a, -b, x, -a, b, x, a, -b); }
      else if (g.type == 4) { int c = L(g.a), t = L(g.b), e = L(g.c);
        fprintf(fp, "%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n", -c, -t, x, -c, t, -x, c, -e, x, c, e, -x, -t, -e, x, t, e, -x); } }
    for (auto l : roots) fprintf(fp, "%d 0\n", L(l));
    fclose(fp);
    std::string cmd = "kissat -q --time=" + std::to_string(std::max(1, (int)left(hardTimeout))) + " " + f + " > " + o + " 2>/dev/null";
    if (getenv("SX_DEBUGQ")) fprintf(stderr, "[kissat: %zu vars %zu clauses]\n", cone.size(), nc);
    int rc = system(cmd.c_str()); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : -1;
    Res res = rc == 10 ? SAT : rc == 20 ? UNSAT : UNKNOWN;
    if (res == SAT) {
      std::vector<char> val(cone.size() + 1, 0); FILE *fo = fopen(o.c_str(), "r"); char *line = nullptr; size_t cap = 0;
      while (getline(&line, &cap, fo) > 0) if (line[0] == 'v') { char *p = line + 1; long v; int n; while (sscanf(p, " %ld%n", &v, &n) == 1) { p += n; if (v > 0) val[v] = 1; } }
      free(line); fclose(fo);
      extractModel(cs, [&](uint32_t n) { auto it = num.find(n); return it == num.end() ? 0 : (int)val[it->second]; }, m);
    }
    if (!getenv("SX_KEEP")) { unlink(f.c_str()); unlink(o.c_str()); }
    return res;
  }

  // ---------- z3
  std::vector<Z3_ast> zcache;
  Z3_ast zx(E root) {
    if (!z) { Z3_config cfg = Z3_mk_config(); z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(z, nullptr); }
    if (zcache.size() < C.nodes.size()) zcache.resize(C.nodes.size(), nullptr);
    std::vector<std::pair<E, int>> stk; stk.push_back({root, 0});
    while (!stk.empty()) {
      E e = stk.back().first; if (zcache[e->id]) { stk.pop_back(); continue; }
      if (!stk.back().second) { stk.back().second = 1; for (int i = 0; i < 3; i++) if (e->c[i] && !zcache[e->c[i]->id]) stk.push_back({e->c[i], 0}); continue; }
      stk.pop_back(); zcache[e->id] = zmk(e);
    }
    return zcache[root->id];
  }
  Z3_ast zb(Z3_ast bv) { return Z3_mk_eq(z, bv, Z3_mk_numeral(z, "1", Z3_mk_bv_sort(z, 1))); }
  Z3_ast zm(E e) { return zcache[e->id]; }
  Z3_ast zbool2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(z, 1); return Z3_mk_ite(z, b, Z3_mk_numeral(z, "1", s), Z3_mk_numeral(z, "0", s)); }
  Z3_ast zmk(E e) {
    auto a = [&](int i) { return zm(e->c[i]); };
    switch (e->op) {
    case O_CONST: { llvm::SmallString<80> s; e->val.toStringUnsigned(s, 10); return Z3_mk_numeral(z, s.c_str(), Z3_mk_bv_sort(z, e->w)); }
    case O_VAR: return Z3_mk_const(z, Z3_mk_int_symbol(z, e->lo), Z3_mk_bv_sort(z, e->w));
    case O_ADD: return Z3_mk_bvadd(z, a(0), a(1)); case O_SUB: return Z3_mk_bvsub(z, a(0), a(1)); case O_MUL: return Z3_mk_bvmul(z, a(0), a(1));
    case O_UDIV: return Z3_mk_bvudiv(z, a(0), a(1)); case O_SDIV: return Z3_mk_bvsdiv(z, a(0), a(1)); case O_UREM: return Z3_mk_bvurem(z, a(0), a(1)); case O_SREM: return Z3_mk_bvsrem(z, a(0), a(1));
    case O_AND: return Z3_mk_bvand(z, a(0), a(1)); case O_OR: return Z3_mk_bvor(z, a(0), a(1)); case O_XOR: return Z3_mk_bvxor(z, a(0), a(1));
    case O_SHL: return Z3_mk_bvshl(z, a(0), a(1)); case O_LSHR: return Z3_mk_bvlshr(z, a(0), a(1)); case O_ASHR: return Z3_mk_bvashr(z, a(0), a(1));
    case O_EQ: return zbool2bv(Z3_mk_eq(z, a(0), a(1))); case O_ULT: return zbool2bv(Z3_mk_bvult(z, a(0), a(1))); case O_SLT: return zbool2bv(Z3_mk_bvslt(z, a(0), a(1)));
    case O_ITE: return Z3_mk_ite(z, zb(a(0)), a(1), a(2));
    case O_EXTRACT: return Z3_mk_extract(z, e->lo + e->w - 1, e->lo, a(0)); case O_CONCAT: return Z3_mk_concat(z, a(0), a(1));
    case O_ZEXT: return Z3_mk_zero_ext(z, e->w - e->c[0]->w, a(0)); case O_SEXT: return Z3_mk_sign_ext(z, e->w - e->c[0]->w, a(0));
    case O_CTPOP: { Z3_ast r = nullptr; uint32_t w = e->w; for (uint32_t i = 0; i < w; i++) { Z3_ast b = Z3_mk_extract(z, i, i, a(0)); Z3_ast x = w > 1 ? Z3_mk_zero_ext(z, w - 1, b) : b; r = r ? Z3_mk_bvadd(z, r, x) : x; } return r; }
    }
    abort();
  }
  Res z3check(const std::vector<E> &cs, unsigned ms_, std::shared_ptr<Model> *m) {
    const Support *s = C.emptySup; for (E e : cs) s = C.uni(s, e->sup);
    std::vector<E> rng; rangeLits(*s, rng);
    zx(cs[0]);
    Z3_solver so = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, so);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms_); Z3_solver_set_params(z, so, p); Z3_params_dec_ref(z, p);
    for (E e : cs) Z3_solver_assert(z, so, zb(zx(e)));
    for (E e : rng) Z3_solver_assert(z, so, Z3_mk_not(z, zb(zx(e))));
    Z3_lbool r = Z3_solver_check(z, so); Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT && m) {
      Z3_model mo = Z3_solver_get_model(z, so); Z3_model_inc_ref(z, mo); *m = std::make_shared<Model>();
      for (auto v : *s) { Z3_ast val; Z3_model_eval(z, mo, zx(C.vars[v].e), true, &val); const char *str = Z3_get_numeral_string(z, val); (*m)->set(v, APInt(C.vars[v].w + 8, llvm::StringRef(str), 10).trunc(C.vars[v].w)); }
      Z3_model_dec_ref(z, mo);
    }
    Z3_solver_dec_ref(z, so);
    return res;
  }
};
} // namespace sx
