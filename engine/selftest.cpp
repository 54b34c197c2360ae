#include "solver.h"
#include <random>
using namespace sx;
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 200; unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
  std::mt19937_64 R(seed);
  for (int rd = 0; rd < rounds; rd++) {
    Ctx C; Solver S(C);
    std::vector<E> pool; std::vector<std::vector<APInt>> val; const int NA = 6;
    std::vector<Model> ms(NA);
    auto addE = [&](E e, std::vector<APInt> v) {
      for (int i = 0; i < NA; i++) {
        APInt x = ms[i].eval(C, e);
        if (x != v[i]) { printf("MISMATCH seed %u round %d: %s\n", seed, rd, C.str(e, 10).c_str()); exit(1); }
        if ((x & e->kz) != 0 || (~x & e->ko) != 0 || x.ult(e->umin) || x.ugt(e->umax)) { printf("ANALYSIS WRONG round %d: %s\n", rd, C.str(e, 10).c_str()); exit(1); }
      }
      pool.push_back(e); val.push_back(v); };
    static const unsigned ws[] = {1, 2, 3, 4, 8, 12, 16, 32, 64};
    for (int i = 0; i < 6; i++) {
      unsigned w = ws[R() % 9]; bool rg = R() % 2; uint64_t lo = 0, hi = w == 64 ? ~0ull : (1ull << w) - 1;
      if (rg) { uint64_t a = R() & hi, b = R() & hi; if (R() % 2) { a &= 0xf; b &= 0xf; } lo = std::min(a, b); hi = std::max(a, b); }
      E e = C.newVar(w, "v" + std::to_string(i), lo, hi, rg, i);
      std::vector<APInt> v; for (int j = 0; j < NA; j++) { uint64_t span = hi - lo; uint64_t x = span == ~0ull ? R() : lo + R() % (span + 1); if (R() % 4 == 0) x = lo; if (R() % 4 == 0) x = hi; APInt p(64, x); p = p.trunc(w); ms[j].set(e->lo, p); v.push_back(p); }
      addE(e, v);
    }
    auto pickW = [&](unsigned w) -> int { std::vector<int> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i]->w == w) c.push_back(i); if (c.empty()) return -1; return c[R() % c.size()]; };
    for (int step = 0; step < 150; step++) {
      int op = R() % 27; int a = R() % pool.size(); unsigned w = pool[a]->w; int b = pickW(w);
      if (R() % 3 == 0) { uint64_t k = R() % 3 == 0 ? R() : R() % 2 ? (1ull << (R() % 64)) : R() % 10; if (R() % 4 == 0) k = ~k; E e = C.K(w, k); addE(e, std::vector<APInt>(NA, e->val)); b = pool.size() - 1; if (R() % 2) std::swap(a, b); }
      E x = pool[a], y = pool[b]; std::vector<APInt> v(NA); E r = nullptr; Op o = O_CONST; unsigned rw = w, lo = 0; int c = -1;
      if (op < 15) { static Op ops[] = {O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR,O_ADD,O_AND}; o = ops[op]; r = C.bin(o, x, y); for (int i = 0; i < NA; i++) v[i] = Ctx::evalOp(o, w, 0, &val[a][i], &val[b][i], nullptr); }
      else if (op < 18) { o = op == 15 ? O_EQ : op == 16 ? O_ULT : O_SLT; r = C.bin(o, x, y); for (int i = 0; i < NA; i++) v[i] = Ctx::evalOp(o, 1, 0, &val[a][i], &val[b][i], nullptr); }
      else if (op < 21) { c = pickW(1); if (c < 0) continue; r = C.Ite(pool[c], x, y); for (int i = 0; i < NA; i++) v[i] = val[c][i].isZero() ? val[b][i] : val[a][i]; }
      else if (op == 21) { rw = 1 + R() % w; lo = R() % (w - rw + 1); r = C.Extract(x, lo, rw); for (int i = 0; i < NA; i++) v[i] = val[a][i].extractBits(rw, lo); }
      else if (op == 22) { int d = R() % pool.size(); if (pool[d]->w + w > 64) continue; r = C.Concat(x, pool[d]); for (int i = 0; i < NA; i++) v[i] = Ctx::evalOp(O_CONCAT, r->w, 0, &val[a][i], &val[d][i], nullptr); }
      else if (op == 23) { rw = w + R() % (65 - w); r = C.ZExt(x, rw); for (int i = 0; i < NA; i++) v[i] = val[a][i].zext(rw); }
      else if (op == 24) { rw = w + R() % (65 - w); r = C.SExt(x, rw); for (int i = 0; i < NA; i++) v[i] = val[a][i].sext(rw); }
      else if (op == 25) { r = C.Ctpop(x); for (int i = 0; i < NA; i++) v[i] = APInt(w, val[a][i].popcount()); }
      else { r = C.Not(x); for (int i = 0; i < NA; i++) v[i] = ~val[a][i]; }
      addE(r, v);
    }
    // bit-blaster against evaluation: expr == value under fixed inputs must be SAT, and != UNSAT
    for (int t = 0; t < 6; t++) {
      int i = R() % pool.size(), j = R() % NA; E e = pool[i]; std::vector<E> cs;
      for (auto &vi : C.vars) cs.push_back(C.Eq(C.K(ms[j].get(C, vi.e->lo)), vi.e));
      auto c1 = cs; c1.push_back(C.raw(O_EQ, 1, C.K(val[i][j]), e)); auto c2 = cs; c2.push_back(C.raw(O_XOR, 1, C.T(), C.raw(O_EQ, 1, C.K(val[i][j]), e)));
      std::shared_ptr<Model> m;
      if (S.check(c1, &m) != SAT || S.check(c2, &m) != UNSAT) { printf("BLAST WRONG round %d\n", rd); return 1; }
      if (t == 0 && (S.z3check(c1, 5000, &m) == UNSAT || S.z3check(c2, 5000, &m) == SAT)) { printf("Z3 WRONG round %d %s\n", rd, C.str(e,12).c_str()); return 1; }
    }
    // free query, compare with z3
    { int i = R() % pool.size(); E e = pool[i]; int j = pickW(e->w); std::vector<E> cs{C.raw(O_EQ, 1, e, pool[j]), C.raw(O_ULT, 1, pool[0], C.K(pool[0]->w, R()))};
      for (auto&x: C.vars) (void)x;
      S.confBudget = 2000; S.hardTimeout = 5; std::shared_ptr<Model> m; Res a = S.check(cs, &m), b = S.z3check(cs, 3000, &m);
      if (a != UNKNOWN && b != UNKNOWN && a != b) { printf("SOLVERS DISAGREE round %d\n", rd); return 1; } }
  }
  printf("selftest ok: %d rounds\n", rounds);
}
