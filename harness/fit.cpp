// F01, F02: FitVector. The element at a symbolic observer index q is followed through the history.
#include "sym.h"
#include <sim_ds/FitVector.hpp>
using sim_ds::FitVector;
static uint64_t maskOf(size_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

struct Ref { size_t w; std::vector<uint64_t> val; std::vector<char> known; size_t size() const { return val.size(); } void resize(size_t n, uint64_t x, bool k) { val.resize(n, x); known.resize(n, k); } };
KEEP static void check(FitVector &v, const Ref &r) {
  ASSERT(v.size() == r.size() && v.empty() == (r.size() == 0), "size equals the reference size");
  ASSERT(v.unit_width() == r.w, "the element width stays");
  const FitVector &c = v;
  for (size_t i = 0; i < r.size(); i++) if (r.known[i]) { ASSERT((uint64_t)v[i] == r.val[i], "v[i] equals the reference value"); ASSERT((uint64_t)c[i] == r.val[i], "const v[i] equals the reference value"); }
}
static Ref fresh(size_t w, size_t n) { Ref r; r.w = w; r.resize(n, 0, true); for (auto &x : r.val) x = sym_bits(w); return r; }
static void fillAll(FitVector &v, Ref &r) { for (size_t i = 0; i < r.size(); i++) v[i] = r.val[i]; }
KEEP static void step(FitVector &v, Ref &r, int op, size_t maxN) {
  uint64_t x = sym_bits(r.w);
  switch (op) {
  case 0: { size_t i = sym_pick(0, r.size() - 1); v[i] = x; r.val[i] = x; r.known[i] = true; break; }
  case 1: v.push_back(x); r.resize(r.size() + 1, x, true); break;
  case 2: { size_t n = sym_pick(0, maxN); v.resize(n, x); r.resize(n, x, true); break; }
  case 3: { size_t n = sym_pick(0, maxN); v.assign(n, x); r.resize(0, 0, true); r.resize(n, x, true); break; }
  case 4: { size_t n = sym_pick(0, maxN); v.resize(n); r.resize(n, 0, false); break; }
  case 5: { FitVector w(v); if (r.size()) w[0] = x; FitVector m(std::move(v)); v = FitVector(r.w, 2, x); v = m; check(m, r); break; }
  case 6: { size_t i = sym_pick(0, r.size() - 1), j = sym_pick(0, r.size() - 1); v[i] = v[j]; r.val[i] = r.val[j]; r.known[i] = r.known[j]; break; }
  case 7: v.reserve(sym_pick(0, maxN)); break;
  }
}
// one entry per operation; the widths run in the outer loop
static void one(int op) {
  EXPECT("checked");
  size_t w = sym_pick(1, 64), n = sym_pick(0, 3); n = n == 3 ? TIER(11, 18) : n == 2 ? 64 / w + 1 : n; if (n > TIER(18, 66)) n = TIER(18, 66);
  Ref r = fresh(w, n); FitVector v(w, n); for (size_t i = 0; i < n; i++) v[i] = 0;
  fillAll(v, r); check(v, r); if (n == 0 && (op == 0 || op == 6)) return;
  step(v, r, op, TIER(9, 20)); check(v, r); REACH("checked");
}
#define B "every width 1..64, vectors of 0, 1, 11 (thorough 18) and min(64/width+1, 18) (thorough: 66) elements, every contents and value, sizes up to 9 (thorough 20) for resize and assign"
ENTRY(F01_set, "assignment: " B) { one(0); }
ENTRY(F01_push, "push_back: " B) { one(1); }
ENTRY(F01_resize, "resize(n, v): " B) { one(2); }
ENTRY(F01_assign, "assign(n, v): " B) { one(3); }
ENTRY(F01_shrink, "resize(n): " B) { one(4); }
ENTRY(F01_copy, "copy and move: " B) { one(5); }
ENTRY(F01_self, "v[i] = v[j]: " B) { one(6); }
ENTRY(F01_reserve, "reserve(n): " B) { one(7); }
ENTRY(F01_history, "every history of 3 (thorough 4) operations from an empty vector, widths 1, 7, 33, 63, 64 (thorough 8 widths), sizes up to 3") {
  static const size_t W[] = {1, 7, 33, 63, 64, 2, 32, 48};
  Ref r; r.w = W[sym_pick(0, TIER(4, 7))];
  FitVector v(r.w);
  for (int k = 0; k < TIER(3, 4); k++) { int op = (int)sym_pick(0, 4); if (op == 0 && r.size() == 0) return; step(v, r, op, 3); }
  check(v, r);
}
ENTRY(F01_symbolic_index, "assignment and observation at symbolic indices, widths 3, 31, 33, 63 and 64 (thorough every width), 8 elements") {
  static const size_t W[] = {3, 31, 33, 63, 64}; size_t w = TIER(W[sym_pick(0, 4)], sym_pick(1, 64)); Ref r = fresh(w, 8); FitVector v(w, 8); fillAll(v, r);
  size_t i = sym_range(0, 7), q = sym_range(0, 7); uint64_t x = sym_bits(w); v[i] = x; uint64_t want = x; for (size_t k = 0; k < 8; k++) if (k == q && k != i) want = r.val[k];
  ASSERT((uint64_t)v[q] == want, "v[q] equals the reference value");
}
ENTRY(F01_at, "at() on vectors of up to 5 elements of every width, any 64-bit index") {
  EXPECT("threw"); EXPECT("ok");
  size_t w = sym_pick(1, 64), n = sym_pick(0, 5); Ref r = fresh(w, n); FitVector v(w, n); fillAll(v, r);
  size_t i = sym_u64(); bool threw = false, cst = sym_pick(0, 1); uint64_t val = 0; const FitVector &c = v;
  if (i < n) i = __sym_concretize(i);
  try { val = cst ? (uint64_t)c.at(i) : (uint64_t)v.at(i); } catch (const std::out_of_range &) { threw = true; }
  ASSERT(threw == (i >= n), "at(i) throws exactly when i >= size");
  if (threw) { REACH("threw"); return; } REACH("ok");
  ASSERT(val == r.val[i], "at(i) is element i");
  v.at(i) = 1; r.val[i] = 1; check(v, r);
}
ENTRY(F01_ends, "front, back and size constructors, every width, up to 4 elements") {
  size_t w = sym_pick(1, 64), n = sym_pick(1, 4); uint64_t x = sym_bits(w);
  Ref z; z.w = w; z.resize(n, 0, true); FitVector zv(w, n); check(zv, z); FitVector y(w, n, x); Ref yr; yr.w = w; yr.resize(n, x, true); check(y, yr);
  Ref r = fresh(w, n); FitVector v(w, n); fillAll(v, r); const FitVector &c = v;
  ASSERT((uint64_t)v.front() == r.val[0] && (uint64_t)c.front() == r.val[0], "front() is element 0");
  ASSERT((uint64_t)v.back() == r.val[n - 1] && (uint64_t)c.back() == r.val[n - 1], "back() is the last element");
  v.back() = x; r.val[n - 1] = x; check(v, r);
}

// ---- F02
static size_t bitlen(uint64_t v) { size_t n = 1; for (size_t k = 1; k < 64; k++) n += (v >> k) != 0; return n; }
template <class T> static void lossless(size_t n) { STEPS(400000);
  std::vector<T> src(n); uint64_t mx = 0; for (auto &x : src) { x = (T)sym_bits(sizeof(T) * 8); mx = x > mx ? x : mx; }
  FitVector v(src);
  ASSERT(v.size() == n, "same size"); OBS(v.unit_width());
  ASSERT(v.unit_width() == (n ? bitlen(mx) : 0), "the width is the bit length of the largest value, 0 for an empty vector");
  size_t q = sym_range(0, 15); ASSUME(q < n); uint64_t want = 0; for (size_t i = 0; i < n; i++) if (i == q) want = src[i];
  ASSERT((uint64_t)v[q] == want, "same value at every index");
  HIT(v.unit_width() == sizeof(T) * 8, "full width"); HIT(mx == 0, "all zero");
}
ENTRY(F02_u64, "vectors of 1..3 (thorough 5) 64-bit values") { EXPECT("full width"); EXPECT("all zero"); lossless<uint64_t>(sym_pick(1, TIER(3, 5))); }
ENTRY(F02_u32, "vectors of 1..3 (thorough 5) 32-bit values") { EXPECT("full width"); lossless<uint32_t>(sym_pick(1, TIER(3, 5))); }
ENTRY(F02_u8, "vectors of 1..5 (thorough 8) bytes") { EXPECT("full width"); lossless<uint8_t>(sym_pick(1, TIER(5, 8))); }
ENTRY(F02_u16, "vectors of 1..4 16-bit values") { EXPECT("full width"); lossless<uint16_t>(sym_pick(1, 4)); }
ENTRY(F02_empty, "the empty vector") { std::vector<uint64_t> e; FitVector v(e); ASSERT(v.size() == 0 && v.empty() && v.unit_width() == 0, "an empty vector has no elements and width 0"); FitVector w(v); ASSERT(w.empty(), "copy"); bool t = false; try { v.at(0); } catch (const std::out_of_range &) { t = true; } ASSERT(t, "at(0) of an empty vector throws"); }
// large vectors: fixed contents, symbolic fill value
static const size_t LW[] = {1, 7, 33, 64, 13}, LN[] = {0, 255, 256, 257, 1000, 4096, 32768, 65535, 65537};
static uint64_t pat(size_t i, size_t w) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; return (x ^ (x >> 29)) & maskOf(w); }
KEEP static void all(const FitVector &v, size_t m, size_t n, uint64_t x) { // the first m elements are pat, the others x
  ASSERT(v.size() == n && v.empty() == (n == 0), "size equals the reference size"); bool ok = true; size_t w = v.unit_width(); size_t stride = n > 2000 ? 13 : 1;
  for (size_t i = 0; i < n; i += (i + 40 > n || (i + 20 > m && i < m + 20) || i < 20 ? 1 : stride)) { uint64_t want = i < m ? pat(i, w) : x; ok = ok & ((uint64_t)v[i] == want); } ASSERT(ok, "v[i] equals the reference value");
}
#define BL "widths 1, 7, 33, 64 (thorough also 13), sizes 255..4096 (thorough 65537) at selected values"
ENTRY(F01_large_resize, "resize, assign and construction with any value, " BL) { STEPS(80000000);
  size_t w = LW[sym_pick(0, TIER(3, 4))], m = LN[sym_pick(0, TIER(5, 8))], n = LN[sym_pick(0, TIER(5, 8))]; uint64_t x = sym_bits(w); size_t how = sym_pick(0, 2); if (how == 1) { FitVector v(w, m, x); all(v, 0, m, x); v.resize(n, x); all(v, 0, n, x); return; }
  FitVector v(w, m); for (size_t i = 0; i < m; i++) v[i] = pat(i, w); all(v, m, m, 0); if (how == 0) { v.resize(n, x); all(v, m, n, x); v.push_back(~x & maskOf(w)); ASSERT(v.size() == n + 1 && (uint64_t)v[n] == (~x & maskOf(w)), "push_back"); } else { v.assign(n, x); all(v, 0, n, x); }
}
ENTRY(F01_large_push, "pushing 0..4096 (thorough 65537) fixed elements, then any value, widths as above") { STEPS(80000000); size_t w = LW[sym_pick(0, TIER(3, 4))], n = LN[sym_pick(0, TIER(5, 8))]; uint64_t x = sym_bits(w); FitVector v(w); for (size_t i = 0; i < n; i++) v.push_back(pat(i, w)); v.push_back(x); v.push_back(x); all(v, n, n + 2, x); FitVector c(v); all(c, n, n + 2, x); v = FitVector(3); v = std::move(c); all(v, n, n + 2, x); }
template <class T> static void losslessLarge() { STEPS(80000000);
  size_t n = LN[sym_pick(1, TIER(5, 8))], at = sym_pick(0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; size_t w = sym_pick(0, 1) ? 8 * sizeof(T) : 5; std::vector<T> s(n); for (size_t i = 0; i < n; i++) s[i] = (T)(pat(i, w) & ~((uint64_t)1 << (w - 1))); s[at] = (T)(sym_bits(w) | ((uint64_t)1 << (w - 1)));
  FitVector v(s); ASSERT(v.unit_width() == w, "the width is the bit length of the largest value"); ASSERT(v.size() == n, "same size"); bool ok = true; for (size_t i = 0; i < n; i += i + 20 > n || i < 20 || (i + 3 > at && i < at + 3) ? 1 : 7) ok = ok & ((uint64_t)v[i] == (uint64_t)s[i]); ASSERT(ok, "same value at every index");
}
#define BF "vectors of 255..4096 (thorough 65537) values of 5 and all bits, fixed except the largest, which is first, in the middle or last and symbolic"
ENTRY(F02_large32, "32-bit " BF) { losslessLarge<uint32_t>(); }
ENTRY(F02_large8, "8-bit " BF) { losslessLarge<uint8_t>(); }
ENTRY(F02_large64, "64-bit " BF) { losslessLarge<uint64_t>(); }
