// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringRef.h"

namespace sx {
using llvm::APInt;

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_SLT, O_ITE, O_EXTRACT,
  O_CONCAT, O_ZEXT, O_SEXT, O_CTPOP };

static const char *opname[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem",
  "and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","extract","concat","zext","sext","ctpop"};

using Support = std::vector<uint32_t>;  // sorted interned variable ids

struct Expr {
  Op op; uint32_t w; uint32_t id; uint32_t lo;
  const Expr *c[3];
  APInt val;
  APInt kz, ko, umin, umax;
  uint32_t nleaf;
  const Support *sup;
  uint32_t depth;
  mutable void *z3ast = nullptr;
  mutable std::vector<int32_t> *bits = nullptr;
  bool isConst() const { return op == O_CONST; }
  uint64_t u64() const { return val.getZExtValue(); }
};
using E = const Expr *;

struct VarInfo { uint32_t w; APInt lo, hi; bool ranged; std::string name; E e; int inputIndex; };

class Ctx {
public:
  std::vector<Expr *> nodes;
  std::vector<VarInfo> vars;
  struct Key { Op op; uint32_t w, lo; E c[3]; const APInt *val; };
  struct H { size_t operator()(const Expr *e) const { return hash(e->op, e->w, e->lo, e->c[0], e->c[1], e->c[2], e->val); }
    static size_t hash(Op op, uint32_t w, uint32_t lo, E a, E b, E c, const APInt &v) {
      size_t h = op * 0x9E3779B97F4A7C15ull + w * 0xBF58476D1CE4E5B9ull + lo * 0x94D049BB133111EBull;
      auto mix = [&](size_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
      mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
      if (op == O_CONST) for (unsigned i = 0; i < v.getNumWords(); i++) mix(v.getRawData()[i]);
      return h; } };
  struct EqF { bool operator()(const Expr *a, const Expr *b) const {
      return a->op == b->op && a->w == b->w && a->lo == b->lo && a->c[0] == b->c[0] && a->c[1] == b->c[1] && a->c[2] == b->c[2] &&
        (a->op != O_CONST || a->val == b->val); } };
  std::unordered_set<Expr *, H, EqF> table;
  struct SupH { size_t operator()(const Support *s) const { size_t h = 1469598103934665603ull; for (auto x : *s) { h ^= x; h *= 1099511628211ull; } return h; } };
  struct SupE { bool operator()(const Support *a, const Support *b) const { return *a == *b; } };
  std::unordered_set<const Support *, SupH, SupE> sups;
  std::unordered_map<uint64_t, const Support *> supUnion;  // keyed by pair of pointers hashed
  const Support *emptySup;

  Ctx() { emptySup = internSup(new Support()); }

  const Support *internSup(Support *s) {
    auto it = sups.find(s);
    if (it != sups.end()) { if (*it != s) delete s; return *it; }
    sups.insert(s); return s;
  }
  struct PH { size_t operator()(const std::pair<const Support*, const Support*> &p) const { return (size_t)p.first * 31 ^ ((size_t)p.second >> 4) * 0x9E3779B97F4A7C15ull; } };
  std::unordered_map<std::pair<const Support*, const Support*>, const Support*, PH> unionMemo;
  const Support *uni(const Support *a, const Support *b) {
    if (a == b || b == emptySup) return a;
    if (a == emptySup) return b;
    if (a > b) std::swap(a, b);
    auto k = std::make_pair(a, b);
    auto it = unionMemo.find(k);
    if (it != unionMemo.end()) return it->second;
    auto *s = new Support(); s->reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*s));
    auto *r = internSup(s);
    unionMemo[k] = r;
    return r;
  }

  // ---- raw construction
  E raw(Op op, uint32_t w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t lo = 0, const APInt *v = nullptr) {
    Expr probe; probe.op = op; probe.w = w; probe.lo = lo; probe.c[0] = a; probe.c[1] = b; probe.c[2] = c;
    if (v) probe.val = *v;
    auto it = table.find(&probe);
    if (it != table.end()) return *it;
    Expr *n = new Expr(); n->op = op; n->w = w; n->lo = lo; n->c[0] = a; n->c[1] = b; n->c[2] = c;
    if (v) n->val = *v;
    n->id = nodes.size();
    n->sup = emptySup; n->depth = 1; n->nleaf = 0;
    for (int i = 0; i < 3; i++) if (n->c[i]) { n->sup = uni(n->sup, n->c[i]->sup); n->depth = std::max(n->depth, n->c[i]->depth + 1); }
    analyse(n);
    nodes.push_back(n); table.insert(n);
    return n;
  }
  E K(const APInt &v) { return raw(O_CONST, v.getBitWidth(), nullptr, nullptr, nullptr, 0, &v); }
  E K(uint32_t w, uint64_t v) { return K(APInt(64, v).zextOrTrunc(w)); }
  E T() { return K(1, 1); }
  E F() { return K(1, 0); }
  E newVar(uint32_t w, const std::string &name, uint64_t lo, uint64_t hi, bool ranged, int inputIndex) {
    uint32_t idx = vars.size();
    VarInfo vi; vi.w = w; vi.name = name; vi.ranged = ranged; vi.inputIndex = inputIndex;
    vi.lo = ranged ? APInt(64, lo).zextOrTrunc(w) : APInt::getZero(w);
    vi.hi = ranged ? APInt(64, hi).zextOrTrunc(w) : APInt::getAllOnes(w);
    vars.push_back(vi);
    E e = raw(O_VAR, w, nullptr, nullptr, nullptr, idx);
    vars[idx].e = e;
    return e;
  }

  static APInt lowMaskFor(const APInt &umax) {  // ones for every bit position <= msb of umax
    unsigned w = umax.getBitWidth(); unsigned act = umax.getActiveBits();
    return APInt::getLowBitsSet(w, act);
  }
  void finish(Expr *n) {
    // combine known bits and interval
    unsigned w = n->w;
    n->kz |= ~lowMaskFor(n->umax);
    // common leading bits of umin/umax are known
    APInt diff = n->umin ^ n->umax; unsigned act = diff.getActiveBits();
    if (act < w) {
      APInt hiMask = ~APInt::getLowBitsSet(w, act);
      n->ko |= n->umin & hiMask; n->kz |= ~n->umin & hiMask;
    }
    if (n->umin.ult(n->ko)) n->umin = n->ko;
    if (n->umax.ugt(~n->kz)) n->umax = ~n->kz;
    if (n->umin.ugt(n->umax)) { // contradictory (infeasible node); stay consistent-ish
      n->umin = n->umax;
    }
  }
  void analyse(Expr *n) {
    unsigned w = n->w;
    n->kz = APInt::getZero(w); n->ko = APInt::getZero(w);
    n->umin = APInt::getZero(w); n->umax = APInt::getAllOnes(w);
    E a = n->c[0], b = n->c[1];
    switch (n->op) {
    case O_CONST: n->ko = n->val; n->kz = ~n->val; n->umin = n->umax = n->val; n->nleaf = 1; return;
    case O_VAR: { auto &vi = vars[n->lo]; n->umin = vi.lo; n->umax = vi.hi; n->sup = internSup(new Support{n->lo}); break; }
    case O_ADD: {
      bool ov; APInt mx = a->umax.uadd_ov(b->umax, ov);
      if (!ov) { n->umin = a->umin + b->umin; n->umax = mx; }
      else { bool ov2; APInt mn = a->umin.uadd_ov(b->umin, ov2); if (ov2) { n->umin = mn; n->umax = a->umax + b->umax; } }
      unsigned tz = std::min((~a->kz).countr_zero(), (~b->kz).countr_zero());
      // low known bits
      APInt ka = a->kz | a->ko, kb = b->kz | b->ko;
      unsigned lk = std::min((~ka).countr_zero(), (~kb).countr_zero());
      if (lk) { APInt s = a->ko + b->ko; APInt m = APInt::getLowBitsSet(w, lk); n->ko |= s & m; n->kz |= ~s & m; }
      (void)tz; break; }
    case O_SUB: {
      if (!a->umin.ult(b->umax)) { n->umin = a->umin - b->umax; n->umax = a->umax - b->umin; }
      APInt ka = a->kz | a->ko, kb = b->kz | b->ko;
      unsigned lk = std::min((~ka).countr_zero(), (~kb).countr_zero());
      if (lk) { APInt s = a->ko - b->ko; APInt m = APInt::getLowBitsSet(w, lk); n->ko |= s & m; n->kz |= ~s & m; }
      break; }
    case O_MUL: {
      bool ov; APInt mx = a->umax.umul_ov(b->umax, ov);
      if (!ov) { n->umin = a->umin * b->umin; n->umax = mx; }
      unsigned tz = (~a->kz).countr_zero() + (~b->kz).countr_zero();
      n->kz |= APInt::getLowBitsSet(w, std::min(tz, w)); break; }
    case O_UDIV: if (!b->umin.isZero()) { n->umax = a->umax.udiv(b->umin); n->umin = a->umin.udiv(b->umax); } break;
    case O_UREM: if (!b->umin.isZero()) { n->umax = b->umax - 1; if (a->umax.ult(n->umax)) n->umax = a->umax; } break;
    case O_SDIV: case O_SREM: break;
    case O_AND: n->kz = a->kz | b->kz; n->ko = a->ko & b->ko; n->umax = a->umax.ult(b->umax) ? a->umax : b->umax; break;
    case O_OR: n->kz = a->kz & b->kz; n->ko = a->ko | b->ko; n->umin = a->umin.ugt(b->umin) ? a->umin : b->umin; break;
    case O_XOR: n->kz = (a->kz & b->kz) | (a->ko & b->ko); n->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
    case O_SHL: { unsigned tz = (~a->kz).countr_zero(); if (tz) n->kz |= APInt::getLowBitsSet(w, std::min(tz, w));
      if (b->umin.ult(w)) { unsigned s = b->umin.getZExtValue(); n->kz |= APInt::getLowBitsSet(w, s); } else { n->umax = APInt::getZero(w); break; }
      if (b->umax.ult(w)) { unsigned s = b->umax.getZExtValue(); if (a->umax.getActiveBits() + s <= w) { n->umax = a->umax.shl(s); n->umin = a->umin.shl(b->umin.getZExtValue()); } }
      break; }
    case O_LSHR: if (b->umin.ult(w)) n->umax = a->umax.lshr(b->umin.getZExtValue()); else n->umax = APInt::getZero(w);
      if (b->umax.ult(w)) n->umin = a->umin.lshr(b->umax.getZExtValue()); break;
    case O_ASHR: break;
    case O_EQ: case O_ULT: case O_SLT: break;
    case O_ITE: { E x = n->c[1], y = n->c[2]; n->kz = x->kz & y->kz; n->ko = x->ko & y->ko;
      n->umin = x->umin.ult(y->umin) ? x->umin : y->umin; n->umax = x->umax.ugt(y->umax) ? x->umax : y->umax;
      if (x->nleaf && y->nleaf) n->nleaf = x->nleaf + y->nleaf; break; }
    case O_EXTRACT: { n->kz = a->kz.extractBits(w, n->lo); n->ko = a->ko.extractBits(w, n->lo);
      if (a->umax.getActiveBits() <= n->lo + w) { n->umax = a->umax.lshr(n->lo).trunc(w); n->umin = a->umin.lshr(n->lo).trunc(w); } break; }
    case O_CONCAT: { n->kz = a->kz.zext(w).shl(b->w) | b->kz.zext(w); n->ko = a->ko.zext(w).shl(b->w) | b->ko.zext(w);
      n->umin = a->umin.zext(w).shl(b->w) | b->umin.zext(w); n->umax = a->umax.zext(w).shl(b->w) | b->umax.zext(w); break; }
    case O_ZEXT: n->umin = a->umin.zext(w); n->umax = a->umax.zext(w); n->ko = a->ko.zext(w);
      n->kz = a->kz.zext(w) | ~APInt::getLowBitsSet(w, a->w); break;
    case O_SEXT: n->ko = a->ko.sext(w); n->kz = a->kz.sext(w); break;
    case O_CTPOP: n->umax = APInt(w, std::min<uint64_t>((~a->kz).popcount(), w >= 32 ? ~0u : ((1u << w) - 1)));
      n->umin = APInt(w, a->ko.popcount()); break;
    }
    finish(n);
  }

  // ---- concrete semantics
  static APInt evalOp(Op op, uint32_t w, uint32_t lo, const APInt *a, const APInt *b, const APInt *c) {
    switch (op) {
    case O_ADD: return *a + *b;
    case O_SUB: return *a - *b;
    case O_MUL: return *a * *b;
    case O_UDIV: return b->isZero() ? APInt::getAllOnes(w) : a->udiv(*b);
    case O_UREM: return b->isZero() ? *a : a->urem(*b);
    case O_SDIV: if (b->isZero()) return a->isNegative() ? APInt(w, 1) : APInt::getAllOnes(w); return a->sdiv(*b);
    case O_SREM: if (b->isZero()) return *a; return a->srem(*b);
    case O_AND: return *a & *b;
    case O_OR: return *a | *b;
    case O_XOR: return *a ^ *b;
    case O_SHL: return b->uge(w) ? APInt::getZero(w) : a->shl(b->getZExtValue());
    case O_LSHR: return b->uge(w) ? APInt::getZero(w) : a->lshr(b->getZExtValue());
    case O_ASHR: return b->uge(w) ? a->ashr(w - 1) : a->ashr(b->getZExtValue());
    case O_EQ: return APInt(1, *a == *b);
    case O_ULT: return APInt(1, a->ult(*b));
    case O_SLT: return APInt(1, a->slt(*b));
    case O_ITE: return a->isZero() ? *c : *b;
    case O_EXTRACT: return a->extractBits(w, lo);
    case O_CONCAT: return a->zext(w).shl(b->getBitWidth()) | b->zext(w);
    case O_ZEXT: return a->zext(w);
    case O_SEXT: return a->sext(w);
    case O_CTPOP: return APInt(w, a->popcount());
    default: abort();
    }
  }

  // ---- helpers
  E allOnes(uint32_t w) { return K(APInt::getAllOnes(w)); }
  bool isZero(E e) { return e->isConst() && e->val.isZero(); }
  bool isOnes(E e) { return e->isConst() && e->val.isAllOnes(); }
  bool isNotOf(E a, E b) { // a == ~b
    return (a->op == O_XOR && isOnes(a->c[0]) && a->c[1] == b) || (b->op == O_XOR && isOnes(b->c[0]) && b->c[1] == a);
  }
  E Not(E a) { return Xor(allOnes(a->w), a); }
  E Neg(E a) { return Sub(K(a->w, 0), a); }
  E Ne(E a, E b) { return Not(Eq(a, b)); }
  E Ule(E a, E b) { return Not(Ult(b, a)); }
  E Sle(E a, E b) { return Not(Slt(b, a)); }

  // push unary function into const-leaf ite tree
  static const unsigned kLeafLimit = 300;
  E mapLeaves(E t, std::unordered_map<E, E> &memo, const std::function<E(E)> &f) {
    if (t->isConst()) return f(t);
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    E r = Ite(t->c[0], mapLeaves(t->c[1], memo, f), mapLeaves(t->c[2], memo, f));
    memo[t] = r; return r;
  }
  bool tree(E t) { return t->op == O_ITE && t->nleaf > 1 && t->nleaf <= kLeafLimit; }
  E pushTree(E t, const std::function<E(E)> &f) { std::unordered_map<E, E> memo; return mapLeaves(t, memo, f); }

  E bin(Op op, E a, E b) {
    switch (op) {
    case O_ADD: return Add(a, b); case O_SUB: return Sub(a, b); case O_MUL: return Mul(a, b);
    case O_UDIV: return UDiv(a, b); case O_SDIV: return SDiv(a, b); case O_UREM: return URem(a, b); case O_SREM: return SRem(a, b);
    case O_AND: return And(a, b); case O_OR: return Or(a, b); case O_XOR: return Xor(a, b);
    case O_SHL: return Shl(a, b); case O_LSHR: return LShr(a, b); case O_ASHR: return AShr(a, b);
    case O_EQ: return Eq(a, b); case O_ULT: return Ult(a, b); case O_SLT: return Slt(a, b); default: abort();
    }
  }
  bool constFold2(Op op, uint32_t w, E a, E b, E &out) {
    if (a->isConst() && b->isConst()) { out = K(evalOp(op, w, 0, &a->val, &b->val, nullptr)); return true; }
    if (a->isConst() && tree(b)) { out = pushTree(b, [&](E l) { return bin(op, a, l); }); return true; }
    if (b->isConst() && tree(a)) { out = pushTree(a, [&](E l) { return bin(op, l, b); }); return true; }
    return false;
  }
  E knownConst(E n) { // if all bits known, replace by constant
    if (!n->isConst() && n->umin == n->umax) return K(n->umin);
    return n;
  }

  E Add(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_ADD, a->w, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    if (isZero(a)) return b;
    uint32_t w = a->w;
    if (w == 1) return Xor(a, b);
    if (a->isConst()) {
      if (b->op == O_ADD && b->c[0]->isConst()) return Add(K(a->val + b->c[0]->val), b->c[1]);
      if (b->op == O_SUB && b->c[0]->isConst()) return Sub(K(a->val + b->c[0]->val), b->c[1]);
      if (b->op == O_XOR && isOnes(b->c[0])) // a + ~x = (a-1) - x
        return Sub(K(a->val - 1), b->c[1]);
      return knownConst(raw(O_ADD, w, a, b));
    }
    // pull constants out
    if (a->op == O_ADD && a->c[0]->isConst()) return Add(a->c[0], Add(a->c[1], b));
    if (b->op == O_ADD && b->c[0]->isConst()) return Add(b->c[0], Add(a, b->c[1]));
    if (a->op == O_SUB && a->c[1] == b) return a->c[0];
    if (b->op == O_SUB && b->c[1] == a) return b->c[0];
    if (a->op == O_SUB && a->c[0]->isConst()) return Add(a->c[0], Sub(b, a->c[1]));
    if (b->op == O_SUB && b->c[0]->isConst()) return Add(b->c[0], Sub(a, b->c[1]));
    if (a == b) return Shl(a, K(w, 1));
    if (((~a->kz) & (~b->kz)).isZero()) return Or(a, b);
    { // narrow: operands with enough leading zeros
      unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits()) + 1;
      if (act + 1 < w && act >= 1 && w <= 64 && (a->op == O_ZEXT || b->op == O_ZEXT) && act + 2 < w)
        return ZExt(Add(Extract(a, 0, act), Extract(b, 0, act)), w);
    }
    if (a->op == O_CONCAT && b->op == O_CONCAT) { // common zero low parts
      unsigned tz = std::min((~a->kz).countr_zero(), (~b->kz).countr_zero());
      if (tz > 0 && tz < w) return Concat(Add(Extract(a, tz, w - tz), Extract(b, tz, w - tz)), K(tz, 0));
    }
    if (a->id > b->id) std::swap(a, b);
    return knownConst(raw(O_ADD, w, a, b));
  }
  E Sub(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_SUB, a->w, a, b, r)) return r;
    if (isZero(b)) return a;
    if (a == b) return K(a->w, 0);
    uint32_t w = a->w;
    if (w == 1) return Xor(a, b);
    if (b->isConst()) return Add(K(-b->val), a);
    if (a->isConst()) {
      if (b->op == O_ADD && b->c[0]->isConst()) return Sub(K(a->val - b->c[0]->val), b->c[1]);
      if (b->op == O_SUB && b->c[0]->isConst()) return Add(K(a->val - b->c[0]->val), b->c[1]);
      if (a->val.isAllOnes()) return Xor(a, b);
      if (b->op == O_XOR && isOnes(b->c[0])) return Add(K(a->val + 1), b->c[1]);
      if (b->op == O_SUB && isZero(a)) return Sub(b->c[1], b->c[0]);
      return knownConst(raw(O_SUB, w, a, b));
    }
    if (a->op == O_ADD && a->c[0]->isConst()) return Add(a->c[0], Sub(a->c[1], b));
    if (b->op == O_ADD && b->c[0]->isConst()) return Add(K(-b->c[0]->val), Sub(a, b->c[1]));
    if (a->op == O_ADD) { if (a->c[0] == b) return a->c[1]; if (a->c[1] == b) return a->c[0]; }
    if (b->op == O_ADD) { if (b->c[0] == a) return Neg(b->c[1]); if (b->c[1] == a) return Neg(b->c[0]); }
    if (a->op == O_SUB && a->c[0] == b) return Neg(a->c[1]);
    if (b->op == O_SUB && b->c[0] == a) return b->c[1];
    if (b->op == O_SUB && isZero(b->c[0])) return Add(a, b->c[1]);
    { unsigned tz = std::min((~a->kz).countr_zero(), (~b->kz).countr_zero());
      if (tz > 0 && tz < w) return Concat(Sub(Extract(a, tz, w - tz), Extract(b, tz, w - tz)), K(tz, 0)); }
    return knownConst(raw(O_SUB, w, a, b));
  }
  E Mul(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_MUL, a->w, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    uint32_t w = a->w;
    if (w == 1) return And(a, b);
    if (a->isConst()) {
      if (a->val.isZero()) return a;
      if (a->val.isOne()) return b;
      if (a->val.isPowerOf2()) return Shl(b, K(w, a->val.logBase2()));
      if (b->op == O_MUL && b->c[0]->isConst()) return Mul(K(a->val * b->c[0]->val), b->c[1]);
      if (b->op == O_ADD && b->c[0]->isConst()) return Add(K(a->val * b->c[0]->val), Mul(a, b->c[1]));
      if (a->val.isAllOnes()) return Neg(b);
      { unsigned tz = (~b->kz).countr_zero(); if (tz > 0 && tz < w) return Concat(Mul(K(a->val.trunc(w - tz)), Extract(b, tz, w - tz)), K(tz, 0)); }
    } else if (a->id > b->id) std::swap(a, b);
    if (b->w == w && b->op == O_ZEXT && b->c[0]->w == 1) return Ite(b->c[0], a, K(w, 0));
    if (a->w == w && a->op == O_ZEXT && a->c[0]->w == 1) return Ite(a->c[0], b, K(w, 0));
    { unsigned act = a->umax.getActiveBits() + b->umax.getActiveBits();
      if (act + 2 < w && act > 0 && w <= 64) return ZExt(Mul(Extract(a, 0, act), Extract(b, 0, act)), w); }
    return knownConst(raw(O_MUL, w, a, b));
  }
  E UDiv(E a, E b) {
    E r; if (constFold2(O_UDIV, a->w, a, b, r)) return r;
    uint32_t w = a->w;
    if (b->isConst()) {
      if (b->val.isOne()) return a;
      if (b->val.isPowerOf2()) return LShr(a, K(w, b->val.logBase2()));
    }
    if (!b->umin.isZero() && a->umax.ult(b->umin)) return K(w, 0);
    if (!b->umin.isZero()) { unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0) return ZExt(UDiv(Extract(a, 0, act), Extract(b, 0, act)), w); }
    return knownConst(raw(O_UDIV, w, a, b));
  }
  E URem(E a, E b) {
    E r; if (constFold2(O_UREM, a->w, a, b, r)) return r;
    uint32_t w = a->w;
    if (b->isConst() && b->val.isPowerOf2()) {
      unsigned k = b->val.logBase2();
      if (k == 0) return K(w, 0);
      return ZExt(Extract(a, 0, k), w);
    }
    if (!b->umin.isZero() && a->umax.ult(b->umin)) return a;
    if (!b->umin.isZero()) { unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0) return ZExt(URem(Extract(a, 0, act), Extract(b, 0, act)), w); }
    return knownConst(raw(O_UREM, w, a, b));
  }
  bool nonneg(E a) { return a->kz.isSignBitSet(); }
  bool neg(E a) { return a->ko.isSignBitSet(); }
  E SDiv(E a, E b) {
    E r; if (constFold2(O_SDIV, a->w, a, b, r)) return r;
    if (nonneg(a) && nonneg(b) && !b->umin.isZero()) return UDiv(a, b);
    if (b->isConst() && b->val.isPowerOf2() && !b->val.isSignMask()) { // round toward zero
      unsigned k = b->val.logBase2(); uint32_t w = a->w; if (k == 0) return a;
      E bias = Ite(Extract(a, w - 1, 1), K(APInt::getLowBitsSet(w, k)), K(w, 0));
      return AShr(Add(a, bias), K(w, k));
    }
    return raw(O_SDIV, a->w, a, b);
  }
  E SRem(E a, E b) {
    E r; if (constFold2(O_SREM, a->w, a, b, r)) return r;
    if (nonneg(a) && nonneg(b) && !b->umin.isZero()) return URem(a, b);
    if (b->isConst() && !b->val.isZero()) return Sub(a, Mul(SDiv(a, b), b));
    return raw(O_SREM, a->w, a, b);
  }
  E And(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_AND, a->w, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    uint32_t w = a->w;
    if (a == b) return a;
    if (a->isConst()) {
      if (a->val.isZero()) return a;
      if (a->val.isAllOnes()) return b;
      APInt m = a->val & ~b->kz;         // only possibly-one bits matter
      if (m == ~b->kz) return b;         // mask keeps every possibly-one bit
      if (m.isZero()) return K(w, 0);
      if (b->op == O_AND && b->c[0]->isConst()) return And(K(a->val & b->c[0]->val), b->c[1]);
      if (b->op == O_CONCAT) { E h = b->c[0], l = b->c[1];
        return Concat(And(Extract(a, l->w, h->w), h), And(Extract(a, 0, l->w), l)); }
      if (b->op == O_ZEXT) return ZExt(And(Extract(a, 0, b->c[0]->w), b->c[0]), w);
      // contiguous mask (treating don't care bits as matching)
      unsigned lo = m.countr_zero(), hi = m.getActiveBits();
      APInt full = APInt::getBitsSet(w, lo, hi);
      if (((full & ~a->val) & ~b->kz).isZero()) {
        E x = Extract(b, lo, hi - lo);
        if (lo) x = Concat(x, K(lo, 0));
        return ZExt(x, w);
      }
      if (m != a->val) { // normalise mask
        return And(K(m), b);
      }
      return knownConst(raw(O_AND, w, a, b));
    }
    if (isNotOf(a, b)) return K(w, 0);
    if (((~a->kz) & (~b->kz)).isZero()) return K(w, 0);
    if (w == 1) {
      if (a->op == O_AND && (a->c[0] == b || a->c[1] == b)) return a;
      if (b->op == O_AND && (b->c[0] == a || b->c[1] == a)) return b;
      if (a->op == O_AND && (isNotOf(a->c[0], b) || isNotOf(a->c[1], b))) return F();
      if (b->op == O_AND && (isNotOf(b->c[0], a) || isNotOf(b->c[1], a))) return F();
      if (a->op == O_OR && (a->c[0] == b || a->c[1] == b)) return b;
      if (b->op == O_OR && (b->c[0] == a || b->c[1] == a)) return a;
      if (a->op == O_OR) { if (isNotOf(a->c[0], b)) return And(b, a->c[1]); if (isNotOf(a->c[1], b)) return And(b, a->c[0]); }
      if (b->op == O_OR) { if (isNotOf(b->c[0], a)) return And(a, b->c[1]); if (isNotOf(b->c[1], a)) return And(a, b->c[0]); }
    } else {
      // narrow when high bits of either operand are known zero, or split low zero bits
      unsigned act = std::min(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w) return ZExt(And(Extract(a, 0, act), Extract(b, 0, act)), w);
      unsigned tz = std::max((~a->kz).countr_zero(), (~b->kz).countr_zero());
      if (tz > 0) return Concat(And(Extract(a, tz, w - tz), Extract(b, tz, w - tz)), K(tz, 0));
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w)
        return Concat(And(a->c[0], b->c[0]), And(a->c[1], b->c[1]));
    }
    if (a->id > b->id) std::swap(a, b);
    return knownConst(raw(O_AND, w, a, b));
  }
  E Or(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_OR, a->w, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    uint32_t w = a->w;
    if (a == b) return a;
    if (isZero(a)) return b;
    if (isOnes(a)) return a;
    if (a->isConst()) {
      if (b->op == O_OR && b->c[0]->isConst()) return Or(K(a->val | b->c[0]->val), b->c[1]);
      if (b->op == O_CONCAT) { E h = b->c[0], l = b->c[1];
        return Concat(Or(Extract(a, l->w, h->w), h), Or(Extract(a, 0, l->w), l)); }
      if (b->op == O_ZEXT) { E x = b->c[0];
        return Concat(Extract(a, x->w, w - x->w), Or(Extract(a, 0, x->w), x)); }
    }
    if (isNotOf(a, b)) return allOnes(w);
    if (w > 1) {
      // disjoint contiguous halves => concat
      for (int t = 0; t < 2; t++) {
        unsigned act = a->umax.getActiveBits();           // a zero at and above act
        unsigned tz = (~b->kz).countr_zero();             // b zero below tz
        if (act <= tz && act > 0 && tz < w) {
          // choose split at tz
          return Concat(Extract(b, tz, w - tz), Extract(a, 0, tz));
        }
        std::swap(a, b);
      }
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w)
        return Concat(Or(a->c[0], b->c[0]), Or(a->c[1], b->c[1]));
      if (a->op == O_CONCAT && b->op == O_ZEXT && a->c[1]->w == b->c[0]->w)
        return Concat(a->c[0], Or(a->c[1], b->c[0]));
      if (b->op == O_CONCAT && a->op == O_ZEXT && b->c[1]->w == a->c[0]->w)
        return Concat(b->c[0], Or(b->c[1], a->c[0]));
      unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0) return ZExt(Or(Extract(a, 0, act), Extract(b, 0, act)), w);
      unsigned tz = std::min((~a->kz).countr_zero(), (~b->kz).countr_zero());
      if (tz > 0) return Concat(Or(Extract(a, tz, w - tz), Extract(b, tz, w - tz)), K(tz, 0));
    } else {
      if (a->op == O_OR && (a->c[0] == b || a->c[1] == b)) return a;
      if (b->op == O_OR && (b->c[0] == a || b->c[1] == a)) return b;
      if (a->op == O_OR && (isNotOf(a->c[0], b) || isNotOf(a->c[1], b))) return T();
      if (b->op == O_OR && (isNotOf(b->c[0], a) || isNotOf(b->c[1], a))) return T();
      if (a->op == O_AND && (a->c[0] == b || a->c[1] == b)) return b;
      if (b->op == O_AND && (b->c[0] == a || b->c[1] == a)) return a;
      if (a->op == O_AND) { if (isNotOf(a->c[0], b)) return Or(b, a->c[1]); if (isNotOf(a->c[1], b)) return Or(b, a->c[0]); }
      if (b->op == O_AND) { if (isNotOf(b->c[0], a)) return Or(a, b->c[1]); if (isNotOf(b->c[1], a)) return Or(a, b->c[0]); }
      if (a->op == O_AND && b->op == O_AND) { // (p&x)|(!p&x) = x ; (p&x)|(p&y) = p&(x|y)
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
          if (a->c[i] == b->c[j]) return And(a->c[i], Or(a->c[1 - i], b->c[1 - j]));
        }
      }
    }
    if (a->id > b->id && !b->isConst()) std::swap(a, b);
    if (b->isConst()) std::swap(a, b);
    return knownConst(raw(O_OR, w, a, b));
  }
  E Xor(E a, E b) {
    assert(a->w == b->w);
    E r; if (constFold2(O_XOR, a->w, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    uint32_t w = a->w;
    if (a == b) return K(w, 0);
    if (isZero(a)) return b;
    if (a->isConst()) {
      if (b->op == O_XOR && b->c[0]->isConst()) return Xor(K(a->val ^ b->c[0]->val), b->c[1]);
      if (b->op == O_CONCAT) { E h = b->c[0], l = b->c[1];
        return Concat(Xor(Extract(a, l->w, h->w), h), Xor(Extract(a, 0, l->w), l)); }
      if (b->op == O_ZEXT) { E x = b->c[0];
        return Concat(Extract(a, x->w, w - x->w), Xor(Extract(a, 0, x->w), x)); }
      if (w == 1 && b->op == O_ITE) { /* keep */ }
      if (a->val.isAllOnes() && b->op == O_SEXT) return SExt(Not(b->c[0]), w);
      return knownConst(raw(O_XOR, w, a, b));
    }
    if (a->op == O_XOR && a->c[0]->isConst()) return Xor(a->c[0], Xor(a->c[1], b));
    if (b->op == O_XOR && b->c[0]->isConst()) return Xor(b->c[0], Xor(a, b->c[1]));
    if (a->op == O_XOR) { if (a->c[0] == b) return a->c[1]; if (a->c[1] == b) return a->c[0]; }
    if (b->op == O_XOR) { if (b->c[0] == a) return b->c[1]; if (b->c[1] == a) return b->c[0]; }
    if (w > 1) {
      if (((~a->kz) & (~b->kz)).isZero()) return Or(a, b);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w)
        return Concat(Xor(a->c[0], b->c[0]), Xor(a->c[1], b->c[1]));
      unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0) return ZExt(Xor(Extract(a, 0, act), Extract(b, 0, act)), w);
    }
    if (a->id > b->id) std::swap(a, b);
    return knownConst(raw(O_XOR, w, a, b));
  }
  E Shl(E a, E b) {
    E r; if (constFold2(O_SHL, a->w, a, b, r)) return r;
    uint32_t w = a->w;
    if (b->isConst()) {
      if (b->val.uge(w)) return K(w, 0);
      unsigned s = b->val.getZExtValue(); if (s == 0) return a;
      return Concat(Extract(a, 0, w - s), K(s, 0));
    }
    if (isZero(a)) return a;
    return knownConst(raw(O_SHL, w, a, b));
  }
  E LShr(E a, E b) {
    E r; if (constFold2(O_LSHR, a->w, a, b, r)) return r;
    uint32_t w = a->w;
    if (b->isConst()) {
      if (b->val.uge(w)) return K(w, 0);
      unsigned s = b->val.getZExtValue(); if (s == 0) return a;
      return ZExt(Extract(a, s, w - s), w);
    }
    if (isZero(a)) return a;
    return knownConst(raw(O_LSHR, w, a, b));
  }
  E AShr(E a, E b) {
    E r; if (constFold2(O_ASHR, a->w, a, b, r)) return r;
    uint32_t w = a->w;
    if (nonneg(a)) return LShr(a, b);
    if (b->isConst()) {
      unsigned s = b->val.uge(w) ? w - 1 : b->val.getZExtValue(); if (s == 0) return a;
      return SExt(Extract(a, s, w - s), w);
    }
    return raw(O_ASHR, w, a, b);
  }
  // e, read as an unsigned number, = konst + sum coef * term (mod 2^W); W >= e->w, terms keyed at their narrowest width
  void flattenSum(E e, uint32_t W, const APInt &coef, std::map<E, APInt> &terms, APInt &konst, unsigned depth) {
    if (e->isConst()) { konst += coef * e->val.zext(W); return; }
    bool full = e->w == W; E x = e->c[0], y = e->c[1]; bool ov;
    if (depth < 200 && terms.size() < 400) switch (e->op) {
    case O_ADD: if (!full) { (void)x->umax.uadd_ov(y->umax, ov); if (ov) break; } flattenSum(x, W, coef, terms, konst, depth + 1); flattenSum(y, W, coef, terms, konst, depth + 1); return;
    case O_SUB: if (!full && x->umin.ult(y->umax)) break; flattenSum(x, W, coef, terms, konst, depth + 1); flattenSum(y, W, -coef, terms, konst, depth + 1); return;
    case O_OR: if (!((~x->kz) & (~y->kz)).isZero()) break; flattenSum(x, W, coef, terms, konst, depth + 1); flattenSum(y, W, coef, terms, konst, depth + 1); return;
    case O_ZEXT: flattenSum(x, W, coef, terms, konst, depth + 1); return;
    case O_CONCAT: flattenSum(x, W, coef.shl(y->w), terms, konst, depth + 1); flattenSum(y, W, coef, terms, konst, depth + 1); return;
    case O_SHL: if (!y->isConst() || y->val.uge(e->w)) break; if (!full && x->umax.getActiveBits() + y->val.getZExtValue() > e->w) break; flattenSum(x, W, coef.shl(y->val.getZExtValue()), terms, konst, depth + 1); return;
    case O_EXTRACT: if (e->lo == 0 && x->w <= W && x->umax.getActiveBits() <= e->w) { flattenSum(x, W, coef, terms, konst, depth + 1); return; } break;
    default: break;
    }
    auto it = terms.find(e); if (it == terms.end()) terms.emplace(e, coef); else { it->second += coef; if (it->second.isZero()) terms.erase(it); }
  }
  bool eqSums(E a, E b, E &out) {
    auto sum = [](E e) { while (e->op == O_ZEXT) e = e->c[0]; return e->op == O_ADD || e->op == O_SUB; };
    if (!sum(a) && !sum(b)) return false;
    uint32_t W = a->w; std::map<E, APInt> t, n; APInt k = APInt::getZero(W);
    flattenSum(a, W, APInt(W, 1), t, k, 0); size_t na = t.size(); flattenSum(b, W, APInt(W, 1), n, k, 0); size_t total = na + n.size();
    t.clear(); k = APInt::getZero(W);
    flattenSum(a, W, APInt(W, 1), t, k, 0); flattenSum(b, W, APInt::getAllOnes(W), t, k, 0);
    if (t.empty()) { out = k.isZero() ? T() : F(); return true; }
    if (t.size() + 1 >= total) return false;
    std::vector<std::pair<E, APInt>> v(t.begin(), t.end()); std::sort(v.begin(), v.end(), [](auto &p, auto &q) { return p.first->id < q.first->id; });
    E l = K(W, 0), r = K(W, 0);
    for (auto &p : v) { E x = ZExt(p.first, W); bool neg = p.second.isNegative(); APInt c = neg ? -p.second : p.second; E m = c.isOne() ? x : Mul(K(c), x); if (neg) r = Add(r, m); else l = Add(l, m); }
    if (k.isNegative()) r = Add(r, K(-k)); else l = Add(l, K(k));
    out = eqRec(l, r); return true;
  }
  E eqRec(E a, E b) { bool o = noSums; noSums = true; E r = Eq(a, b); noSums = o; return r; }
  bool noSums = false;
  E Eq(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return T();
    E r; if (constFold2(O_EQ, 1, a, b, r)) return r;
    if (b->isConst()) std::swap(a, b);
    uint32_t w = a->w;
    if (!(a->ko & b->kz).isZero() || !(a->kz & b->ko).isZero()) return F();
    if (a->umax.ult(b->umin) || b->umax.ult(a->umin)) return F();
    if (isNotOf(a, b)) return F();
    if (w == 1) return Not(Xor(a, b));
    if (a->isConst()) {
      switch (b->op) {
      case O_ZEXT: return Eq(Extract(a, 0, b->c[0]->w), b->c[0]); // high part already known-zero-checked
      case O_SEXT: { E x = b->c[0]; if (a->val == a->val.trunc(x->w).sext(w)) return Eq(Extract(a, 0, x->w), x); return F(); }
      case O_CONCAT: { E h = b->c[0], l = b->c[1]; return And(Eq(Extract(a, l->w, h->w), h), Eq(Extract(a, 0, l->w), l)); }
      case O_ADD: if (b->c[0]->isConst()) return Eq(K(a->val - b->c[0]->val), b->c[1]); break;
      case O_SUB: if (b->c[0]->isConst()) return Eq(K(b->c[0]->val - a->val), b->c[1]);
        if (a->val.isZero()) return Eq(b->c[0], b->c[1]); break;
      case O_XOR: if (b->c[0]->isConst()) return Eq(K(a->val ^ b->c[0]->val), b->c[1]);
        if (a->val.isZero()) return Eq(b->c[0], b->c[1]); break;
      case O_OR: if (a->val.isZero()) return And(Eq(a, b->c[0]), Eq(a, b->c[1])); break;
      case O_ITE: { E x = Eq(a, b->c[1]), y = Eq(a, b->c[2]);
        if (x->isConst() || y->isConst()) return Ite(b->c[0], x, y); break; }
      case O_MUL: if (b->c[0]->isConst() && b->c[0]->val[0]) { // odd multiplier is invertible
          APInt inv = b->c[0]->val; APInt x = inv; for (int i = 0; i < 8; i++) x = x * (APInt(w, 2) - inv * x);
          return Eq(K(a->val * x), b->c[1]); } break;
      default: break;
      }
      // narrow by known high zero bits
      if (b->op != O_EXTRACT && b->op != O_VAR) {
        unsigned act = b->umax.getActiveBits();
        if (act < w && act > 0 && b->op != O_UDIV && b->op != O_UREM) { E x = Extract(b, 0, act); if (x->op != O_EXTRACT) return Eq(Extract(a, 0, act), x); }
      }
      return raw(O_EQ, 1, a, b);
    }
    if (!noSums) { E o; if (eqSums(a, b, o)) return o; }
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
      unsigned m = std::max(a->c[0]->w, b->c[0]->w);
      return Eq(ZExt(a->c[0], m), ZExt(b->c[0], m));
    }
    if (a->op == O_SEXT && b->op == O_SEXT && a->c[0]->w == b->c[0]->w) return Eq(a->c[0], b->c[0]);
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w)
      return And(Eq(a->c[0], b->c[0]), Eq(a->c[1], b->c[1]));
    if (a->op == O_ADD && b->op == O_ADD) {
      if (a->c[0] == b->c[0]) return Eq(a->c[1], b->c[1]);
      if (a->c[1] == b->c[1]) return Eq(a->c[0], b->c[0]);
      if (a->c[0] == b->c[1]) return Eq(a->c[1], b->c[0]);
      if (a->c[1] == b->c[0]) return Eq(a->c[0], b->c[1]);
    }
    if (a->op == O_ADD && a->c[0]->isConst() && a->c[1] == b) return F(); // x + c == x, c != 0
    if (b->op == O_ADD && b->c[0]->isConst() && b->c[1] == a) return F();
    if (a->op == O_ADD && (a->c[0] == b)) return Eq(a->c[1], K(w, 0));
    if (a->op == O_ADD && (a->c[1] == b)) return Eq(a->c[0], K(w, 0));
    if (b->op == O_ADD && (b->c[0] == a)) return Eq(b->c[1], K(w, 0));
    if (b->op == O_ADD && (b->c[1] == a)) return Eq(b->c[0], K(w, 0));
    if (a->op == O_MUL && b->op == O_MUL && a->c[0] == b->c[0] && a->c[0]->isConst() && a->c[0]->val[0]) return Eq(a->c[1], b->c[1]);
    if (a->op == O_XOR && b->op == O_XOR) {
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->c[i] == b->c[j]) return Eq(a->c[1 - i], b->c[1 - j]);
    }
    if (a->op == O_ITE && b->op == O_ITE && a->c[0] == b->c[0]) {
      return Ite(a->c[0], Eq(a->c[1], b->c[1]), Eq(a->c[2], b->c[2]));
    }
    { E x = a, y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) if (x->op == O_ITE) { // ite(c,y,z)==y -> c | z==y
        if (x->c[1] == y) return Or(x->c[0], Eq(x->c[2], y));
        if (x->c[2] == y) return Or(Not(x->c[0]), Eq(x->c[1], y)); } }
    { unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0 && (a->op == O_ZEXT || b->op == O_ZEXT)) { E x = Extract(a, 0, act), y = Extract(b, 0, act); return Eq(x, y); }
      unsigned tz = std::min((~a->kz).countr_zero(), (~b->kz).countr_zero());
      if (tz > 0 && tz < w && (a->op == O_CONCAT || b->op == O_CONCAT)) return Eq(Extract(a, tz, w - tz), Extract(b, tz, w - tz)); }
    if (a->id > b->id) std::swap(a, b);
    return raw(O_EQ, 1, a, b);
  }
  E Ult(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return F();
    E r; if (constFold2(O_ULT, 1, a, b, r)) return r;
    uint32_t w = a->w;
    if (a->umax.ult(b->umin)) return T();
    if (!a->umin.ult(b->umax)) return F();
    if (w == 1) return And(Not(a), b);
    if (b->isConst() && b->val.isOne()) return Eq(K(w, 0), a);
    if (isZero(a)) return Not(Eq(a, b));
    if (b->isConst() && b->val.isAllOnes()) return Not(Eq(b, a));
    if (a->isConst() && b->isConst()) {}
    // normalise  c < x  to  !(x < c+1)
    if (a->isConst()) { if (a->val.isAllOnes()) return F(); return Not(Ult(b, K(a->val + 1))); }
    if (b->isConst() && b->val.isPowerOf2()) { unsigned k = b->val.logBase2(); return Eq(K(w - k, 0), Extract(a, k, w - k)); }
    if (a->op == O_ZEXT && (b->op == O_ZEXT || b->isConst())) {
      unsigned m = b->isConst() ? std::max<unsigned>(a->c[0]->w, b->val.getActiveBits()) : std::max(a->c[0]->w, b->c[0]->w);
      if (m < w) return Ult(Extract(a, 0, m), Extract(b, 0, m));
    }
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w) {
      if (a->c[1] == b->c[1]) return Ult(a->c[0], b->c[0]);
      if (a->c[0] == b->c[0]) return Ult(a->c[1], b->c[1]);
    }
    if (b->isConst() && a->op == O_CONCAT) { E h = a->c[0], l = a->c[1]; E bh = Extract(b, l->w, h->w), bl = Extract(b, 0, l->w);
      if (isZero(bl)) return Ult(h, bh);
      if (isZero(l)) return bh->val.isAllOnes() ? T() : Ult(h, K(bh->val + 1)); }
    { unsigned act = std::max(a->umax.getActiveBits(), b->umax.getActiveBits());
      if (act < w && act > 0) { E x = Extract(a, 0, act), y = Extract(b, 0, act); return Ult(x, y); } }
    if (b->isConst() && a->op == O_ITE) { E x = Ult(a->c[1], b), y = Ult(a->c[2], b);
      if (x->isConst() || y->isConst()) return Ite(a->c[0], x, y); }
    // a+c < b+c when no overflow on either side
    if (a->op == O_ADD && b->op == O_ADD && a->c[0]->isConst() && a->c[0] == b->c[0]) {
      bool o1, o2; (void)a->c[1]->umax.uadd_ov(a->c[0]->val, o1); (void)b->c[1]->umax.uadd_ov(a->c[0]->val, o2);
      if (!o1 && !o2) return Ult(a->c[1], b->c[1]);
    }
    if (a->op == O_ADD && a->c[0]->isConst() && b->isConst()) { // c + x < k with no overflow
      bool o1; (void)a->c[1]->umax.uadd_ov(a->c[0]->val, o1);
      if (!o1) { if (!a->c[0]->val.ult(b->val)) return F(); return Ult(a->c[1], K(b->val - a->c[0]->val)); }
    }
    return raw(O_ULT, 1, a, b);
  }
  E Slt(E a, E b) {
    if (a == b) return F();
    E r; if (constFold2(O_SLT, 1, a, b, r)) return r;
    uint32_t w = a->w;
    if (w == 1) return And(a, Not(b));
    if ((nonneg(a) && nonneg(b)) || (neg(a) && neg(b))) return Ult(a, b);
    if (nonneg(a) && neg(b)) return F();
    if (neg(a) && nonneg(b)) return T();
    if (isZero(b)) return Extract(a, w - 1, 1);
    if (isOnes(a)) return Not(Extract(b, w - 1, 1));
    if (a->op == O_SEXT && b->op == O_SEXT && a->c[0]->w == b->c[0]->w) return Slt(a->c[0], b->c[0]);
    if (a->op == O_SEXT && b->isConst() && b->val == b->val.trunc(a->c[0]->w).sext(w)) return Slt(a->c[0], Extract(b, 0, a->c[0]->w));
    if (b->op == O_SEXT && a->isConst() && a->val == a->val.trunc(b->c[0]->w).sext(w)) return Slt(Extract(a, 0, b->c[0]->w), b->c[0]);
    if (a->op == O_ITE && b->isConst()) { E x = Slt(a->c[1], b), y = Slt(a->c[2], b); if (x->isConst() || y->isConst()) return Ite(a->c[0], x, y); }
    return raw(O_SLT, 1, a, b);
  }
  E Ite(E c, E a, E b) {
    assert(c->w == 1 && a->w == b->w);
    if (c->isConst()) return c->val.isZero() ? b : a;
    if (a == b) return a;
    if (c->op == O_XOR && isOnes(c->c[0])) { c = c->c[1]; std::swap(a, b); }
    uint32_t w = a->w;
    if (w == 1) {
      if (a->isConst()) return a->val.isZero() ? And(Not(c), b) : Or(c, b);
      if (b->isConst()) return b->val.isZero() ? And(c, a) : Or(Not(c), a);
      if (a == c) return Or(c, b);
      if (b == c) return And(c, a);
      if (isNotOf(a, b)) return Xor(Not(c), a); // c ? a : !a  == !(c ^ a)
    }
    if (a->op == O_ITE && a->c[0] == c) return Ite(c, a->c[1], b);
    if (b->op == O_ITE && b->c[0] == c) return Ite(c, a, b->c[2]);
    if (b->op == O_ITE && b->c[1] == a) return Ite(Or(c, b->c[0]), a, b->c[2]);
    if (b->op == O_ITE && b->c[2] == a) return Ite(And(Not(c), b->c[0]), b->c[1], a);
    if (a->op == O_ITE && a->c[1] == b) return Ite(And(c, Not(a->c[0])), a->c[2], b);
    if (a->op == O_ITE && a->c[2] == b) return Ite(And(c, a->c[0]), a->c[1], b);
    if (w > 1) {
      // factor common zero-extension / concat structure
      if ((a->op == O_ZEXT || a->isConst()) && (b->op == O_ZEXT || b->isConst()) && !(a->isConst() && b->isConst())) {
        unsigned m = std::max(a->op == O_ZEXT ? a->c[0]->w : std::max(1u, a->val.getActiveBits()), b->op == O_ZEXT ? b->c[0]->w : std::max(1u, b->val.getActiveBits()));
        if (m < w) return ZExt(Ite(c, Extract(a, 0, m), Extract(b, 0, m)), w);
      }
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->c[1]->w == b->c[1]->w && (a->c[0] == b->c[0] || a->c[1] == b->c[1]))
        return Concat(Ite(c, a->c[0], b->c[0]), Ite(c, a->c[1], b->c[1]));
      if (a->op == O_CONCAT && b->isConst() && isZero(a->c[1]) && b->val.countr_zero() >= a->c[1]->w && !isZero(b))
        return Concat(Ite(c, a->c[0], Extract(b, a->c[1]->w, a->c[0]->w)), a->c[1]);
      if (b->op == O_CONCAT && a->isConst() && isZero(b->c[1]) && a->val.countr_zero() >= b->c[1]->w && !isZero(a))
        return Concat(Ite(c, Extract(a, b->c[1]->w, b->c[0]->w), b->c[0]), b->c[1]);
    }
    // 1/0 -> zext
    if (w > 1 && a->isConst() && b->isConst()) {
      if (b->val.isZero() && a->val.isOne()) return ZExt(c, w);
      if (a->val.isZero() && b->val.isOne()) return ZExt(Not(c), w);
    }
    E n = raw(O_ITE, w, c, a, b);
    return n;
  }
  E Extract(E a, uint32_t lo, uint32_t w) {
    assert(lo + w <= a->w && w > 0);
    if (lo == 0 && w == a->w) return a;
    if (a->isConst()) return K(a->val.extractBits(w, lo));
    { APInt kz = a->kz.extractBits(w, lo), ko = a->ko.extractBits(w, lo); if ((kz | ko).isAllOnes()) return K(ko); }
    switch (a->op) {
    case O_EXTRACT: return Extract(a->c[0], a->lo + lo, w);
    case O_CONCAT: { E h = a->c[0], l = a->c[1];
      if (lo >= l->w) return Extract(h, lo - l->w, w);
      if (lo + w <= l->w) return Extract(l, lo, w);
      return Concat(Extract(h, 0, lo + w - l->w), Extract(l, lo, l->w - lo)); }
    case O_ZEXT: { E x = a->c[0]; if (lo >= x->w) return K(w, 0);
      if (lo + w <= x->w) return Extract(x, lo, w);
      return ZExt(Extract(x, lo, x->w - lo), w); }
    case O_SEXT: { E x = a->c[0];
      if (lo + w <= x->w) return Extract(x, lo, w);
      if (lo < x->w) return SExt(Extract(x, lo, x->w - lo), w);
      return SExt(Extract(x, x->w - 1, 1), w); }
    case O_AND: return And(Extract(a->c[0], lo, w), Extract(a->c[1], lo, w));
    case O_OR: return Or(Extract(a->c[0], lo, w), Extract(a->c[1], lo, w));
    case O_XOR: return Xor(Extract(a->c[0], lo, w), Extract(a->c[1], lo, w));
    case O_ADD: if (lo == 0) return Add(Extract(a->c[0], 0, w), Extract(a->c[1], 0, w)); break;
    case O_SUB: if (lo == 0) return Sub(Extract(a->c[0], 0, w), Extract(a->c[1], 0, w)); break;
    case O_MUL: if (lo == 0) return Mul(Extract(a->c[0], 0, w), Extract(a->c[1], 0, w)); break;
    case O_ITE: if (a->nleaf || a->c[1]->isConst() || a->c[2]->isConst() ||
                    ((a->c[1]->op == O_ITE || a->c[1]->op == O_ZEXT || a->c[1]->op == O_CONCAT || a->c[1]->op == O_EXTRACT || a->c[1]->op == O_VAR) &&
                     (a->c[2]->op == O_ITE || a->c[2]->op == O_ZEXT || a->c[2]->op == O_CONCAT || a->c[2]->op == O_EXTRACT || a->c[2]->op == O_VAR)))
        return extIte(a, lo, w); break;
    case O_CTPOP: if (lo == 0 && a->umax.getActiveBits() <= w && a->c[0]->w == a->w) { break; } break;
    default: break;
    }
    return raw(O_EXTRACT, w, a, nullptr, nullptr, lo);
  }
  struct ExtKey { E e; uint32_t lo, w; bool operator==(const ExtKey &o) const { return e == o.e && lo == o.lo && w == o.w; } };
  struct ExtH { size_t operator()(const ExtKey &k) const { return (size_t)k.e->id * 0x9E3779B97F4A7C15ull ^ (k.lo * 131 + k.w); } };
  std::unordered_map<ExtKey, E, ExtH> extMemo;
  E extIte(E a, uint32_t lo, uint32_t w) {
    ExtKey k{a, lo, w}; auto it = extMemo.find(k); if (it != extMemo.end()) return it->second;
    E r = Ite(a->c[0], Extract(a->c[1], lo, w), Extract(a->c[2], lo, w));
    extMemo[k] = r; return r;
  }
  E Concat(E h, E l) {
    uint32_t w = h->w + l->w;
    if (h->isConst() && l->isConst()) return K(h->val.zext(w).shl(l->w) | l->val.zext(w));
    if (isZero(h)) return ZExt(l, w);
    if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->c[0] == l->c[0] && h->lo == l->lo + l->w) return Extract(h->c[0], l->lo, w);
    if (h->op == O_ZEXT) return ZExt(Concat(h->c[0], l), w);
    // canonical right-nesting: Concat(Concat(a,b),c) -> Concat(a, Concat(b,c))
    if (h->op == O_CONCAT) return Concat(h->c[0], Concat(h->c[1], l));
    if (l->op == O_CONCAT) { // merge h with first part if adjacent extracts or constants
      E x = l->c[0];
      if (h->op == O_EXTRACT && x->op == O_EXTRACT && h->c[0] == x->c[0] && h->lo == x->lo + x->w) return Concat(Extract(h->c[0], x->lo, h->w + x->w), l->c[1]);
      if (h->isConst() && x->isConst()) return Concat(Concat(h, x), l->c[1]);
    }
    if (l->op == O_ZEXT && h->isConst()) return Concat(Concat(h, K(l->w - l->c[0]->w, 0)), l->c[0]);
    if (l->op == O_ZEXT) return Concat(h, Concat2(K(l->w - l->c[0]->w, 0), l->c[0]));
    // ite(c,..) ++ ite(c,..)
    if (h->op == O_ITE && l->op == O_ITE && h->c[0] == l->c[0]) return Ite(h->c[0], Concat(h->c[1], l->c[1]), Concat(h->c[2], l->c[2]));
    if (h->isConst() && tree(l)) return pushTree(l, [&](E x) { return Concat(h, x); });
    if (l->isConst() && tree(h)) return pushTree(h, [&](E x) { return Concat(x, l); });
    return raw(O_CONCAT, w, h, l);
  }
  E Concat2(E h, E l) { // raw concat of a zero constant with l, used inside concat chains
    return raw(O_CONCAT, h->w + l->w, h, l);
  }
  E ZExt(E a, uint32_t w) {
    assert(w >= a->w);
    if (w == a->w) return a;
    if (a->isConst()) return K(a->val.zext(w));
    if (a->op == O_ZEXT) return ZExt(a->c[0], w);
    if (tree(a)) return pushTree(a, [&](E x) { return ZExt(x, w); });
    if (a->op == O_CONCAT && isZero(a->c[0])) return ZExt(a->c[1], w);
    return raw(O_ZEXT, w, a);
  }
  E SExt(E a, uint32_t w) {
    assert(w >= a->w);
    if (w == a->w) return a;
    if (a->isConst()) return K(a->val.sext(w));
    if (nonneg(a)) return ZExt(a, w);
    if (a->op == O_SEXT) return SExt(a->c[0], w);
    if (tree(a)) return pushTree(a, [&](E x) { return SExt(x, w); });
    return raw(O_SEXT, w, a);
  }
  E Ctpop(E a) {
    if (a->isConst()) return K(APInt(a->w, a->val.popcount()));
    if (a->w == 1) return a;
    if (a->op == O_ZEXT) return ZExt(CtpopW(a->c[0]), a->w);
    if (a->op == O_CONCAT && (a->c[1]->isConst())) { // drop constant part
      E h = a->c[0], l = a->c[1];
      return Add(K(a->w, l->val.popcount()), ZExt(CtpopW(h), a->w)); }
    if (a->op == O_CONCAT && (a->c[0]->isConst())) {
      E h = a->c[0], l = a->c[1];
      return Add(K(a->w, h->val.popcount()), ZExt(CtpopW(l), a->w)); }
    return knownConst(raw(O_CTPOP, a->w, a));
  }
  E CtpopW(E a) { // ctpop at a width large enough to hold the count
    if (a->w == 1) return a;
    if (a->w == 2 || a->w == 3 || a->w >= 3) return Ctpop(a);
    return Ctpop(a);
  }

  // ---- printing
  std::string str(E e, int d = 6) {
    if (e->isConst()) { llvm::SmallString<40> s; e->val.toStringUnsigned(s, 16); return "0x" + std::string(s.begin(), s.end()) + ":" + std::to_string(e->w); }
    if (e->op == O_VAR) return vars[e->lo].name;
    if (d == 0) return "#" + std::to_string(e->id);
    std::string s = std::string("(") + opname[e->op];
    if (e->op == O_EXTRACT) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
    if (e->op == O_ZEXT || e->op == O_SEXT) s += std::to_string(e->w);
    for (int i = 0; i < 3; i++) if (e->c[i]) s += " " + str(e->c[i], d - 1);
    return s + ")";
  }
};

// ---- assignments
struct Model {
  std::vector<APInt> vals; std::vector<char> has;
  mutable std::unordered_map<E, APInt> cache;
  const APInt get(Ctx &C, uint32_t v) const {
    if (v < has.size() && has[v]) return vals[v];
    return C.vars[v].lo;
  }
  void set(uint32_t v, const APInt &x) {
    if (v >= has.size()) { has.resize(v + 1, 0); vals.resize(v + 1); }
    has[v] = 1; vals[v] = x;
  }
  APInt eval(Ctx &C, E e) const {
    if (e->isConst()) return e->val;
    if (e->op == O_VAR) return get(C, e->lo);
    auto it = cache.find(e); if (it != cache.end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<std::pair<E, int>> st; st.push_back({e, 0});
    while (!st.empty()) {
      E x = st.back().first;
      if (x->isConst() || x->op == O_VAR || cache.count(x)) { st.pop_back(); continue; }
      if (st.back().second == 0) {
        st.back().second = 1;
        if (x->op == O_ITE) { st.push_back({x->c[0], 0}); continue; }
        for (int i = 0; i < 3; i++) if (x->c[i] && !x->c[i]->isConst()) st.push_back({x->c[i], 0});
        continue;
      }
      auto g = [&](E y) -> APInt { if (y->isConst()) return y->val; if (y->op == O_VAR) return get(C, y->lo); return cache.at(y); };
      if (x->op == O_ITE) {
        APInt cv = g(x->c[0]); E y = cv.isZero() ? x->c[2] : x->c[1];
        if (!y->isConst() && y->op != O_VAR && !cache.count(y)) { st.push_back({y, 0}); continue; }
        cache.emplace(x, g(y)); st.pop_back(); continue;
      }
      APInt a, b, c2; if (x->c[0]) a = g(x->c[0]); if (x->c[1]) b = g(x->c[1]); if (x->c[2]) c2 = g(x->c[2]);
      cache.emplace(x, Ctx::evalOp(x->op, x->w, x->lo, &a, &b, &c2));
      st.pop_back();
    }
    return cache.at(e);
  }
};
} // namespace sx
