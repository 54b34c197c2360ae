// V01, V02: BitVector. Every entry follows one observer index q (symbolic) through the history, so a check at q is a
// check at every index.
#include "sym.h"
#include <sim_ds/BitVector.hpp>
using sim_ds::BitVector;
static size_t N = TIER(140, 200);

struct Ref {           // reference semantics of a bit sequence, observed at index q
  size_t size, q; bool bit;
};
KEEP static void check(BitVector &v, const Ref &r) {
  ASSERT(v.size() == r.size, "size equals the reference size");
  ASSERT(v.empty() == (r.size == 0), "empty() iff size 0");
  if (r.q < r.size) {
    ASSERT((bool)v[r.q] == r.bit, "v[q] equals the reference bit");
    const BitVector &c = v;
    ASSERT((bool)c[r.q] == r.bit, "const v[q] equals the reference bit");
  }
}
// arbitrary contents: a vector of n bits whose words are symbolic
static void randomize(BitVector &v, Ref &r, size_t n) {
  uint64_t bit = 0;
  for (size_t w = 0; w * 64 < n; w++) {
    uint64_t x = sym_u64();
    if (n < w * 64 + 64) x &= (1ull << (n % 64)) - 1;
    v.data()[w] = x;
    if (r.q / 64 == w) bit = (x >> (r.q % 64)) & 1;
  }
  r.bit = bit;
}
KEEP static void step(BitVector &v, Ref &r, int op) {
  switch (op) {
  case 0: { size_t n = sym_range(0, N); v.resize(n); if (r.q >= r.size) r.bit = false; r.size = n; break; }
  case 1: { size_t n = sym_range(0, N); bool b = sym_bool(); v.resize(n, b); if (r.q >= r.size) r.bit = b; r.size = n; break; }
  case 2: { bool b = sym_bool(); v.push_back(b); if (r.q == r.size) r.bit = b; r.size++; break; }
  case 3: { size_t n = sym_range(0, N); bool b = sym_bool(); v.assign(n, b); r.bit = b; r.size = n; break; }
  case 4: { if (r.size == 0) return; size_t i = sym_range(0, N + 8); ASSUME(i < r.size); bool b = sym_bool(); v[i] = b; if (i == r.q) r.bit = b; break; }
  case 5: { BitVector w(v); v[0] = r.size ? (bool)v[0] : false; v = w; break; }
  case 6: { BitVector w(std::move(v)); v = BitVector(3, true); v = std::move(w); break; }
  case 7: { v.reserve(sym_range(0, N)); v.shrink_to_fit(); break; }
  case 8: { if (r.size == 0) return; size_t i = sym_range(0, N + 8), j = sym_range(0, N + 8); ASSUME(i < r.size && j < r.size); bool b = v[j]; v[i] = v[j]; if (i == r.q) r.bit = b; break; }
  }
}
static Ref fresh_ref() { Ref r; r.q = sym_range(0, 255); r.size = 0; r.bit = false; return r; }

// one step from an arbitrary vector, then an observation of every index
ENTRY(V01_step, "1 operation (of 9 kinds) from any vector, leftovers beyond its end included, of 0..140 bits (thorough 200), any target size, any arguments") {
  EXPECT("grow"); EXPECT("shrink"); EXPECT("cross");
  Ref r = fresh_ref(); size_t n = sym_range(0, N);
  size_t full = (n + 63) / 64 * 64; // the bits beyond the size hold leftovers of a longer past
  BitVector v(full); randomize(v, r, full); v.resize(n); r.size = n;
  check(v, r);
  size_t before = r.size;
  step(v, r, (int)sym_pick(0, 8));
  HIT(r.size > before, "grow"); HIT(r.size < before, "shrink"); HIT(r.size / 64 > before / 64, "cross");
  check(v, r);
}
static void history(int len) {
  Ref r = fresh_ref(); BitVector v;
  for (int i = 0; i < len; i++) step(v, r, (int)sym_pick(0, 4));
  check(v, r);
}
ENTRY(V01_history2, "all histories of 2 operations from the empty vector, sizes 0..140 (thorough 200)") { history(2); }
ENTRY(V01_history3_T, "all histories of 3 operations (resize, push_back, assign, set) from the empty vector, sizes 0..80") { N = 80; history(3); }
ENTRY(V01_shrink_grow, "resize down, push_back, resize up from any vector of 0..140 bits: stale bits must not reappear") {
  Ref r = fresh_ref(); size_t n = sym_range(0, N);
  BitVector v(n); r.size = n; randomize(v, r, n);
  step(v, r, (int)sym_pick(0, 1)); ASSUME(r.size < n);
  step(v, r, 2); step(v, r, (int)sym_pick(0, 2));
  EXPECT("regrown"); HIT(r.size > 1, "regrown");
  check(v, r);
}
ENTRY(V01_construct, "all constructors, sizes 0..140; list and container constructors up to 70 elements") {
  Ref r = fresh_ref();
  switch (sym_pick(0, 5)) {
  case 0: { BitVector v; check(v, r); break; }
  case 1: { size_t n = sym_range(0, N); BitVector v(n); r.size = n; check(v, r); break; }
  case 2: { size_t n = sym_range(0, N); bool b = sym_bool(); BitVector v(n, b); r.size = n; r.bit = b; check(v, r); break; }
  case 3: { bool a = sym_bool(), b = sym_bool(), c = sym_bool(); BitVector v{a, b, c}; r.size = 3; r.bit = r.q == 0 ? a : r.q == 1 ? b : c; check(v, r); break; }
  case 4: { size_t n = sym_pick(0, 3); n = n < 2 ? n : n == 2 ? 64 : 70; std::vector<uint8_t> src(n); for (size_t i = 0; i < n; i++) { src[i] = sym_u8(); if (i == r.q) r.bit = src[i] != 0; }
            BitVector v(src); r.size = n; check(v, r); break; }
  case 5: { BitVector e{}; BitVector v(e); check(v, r); size_t n = sym_range(0, N); BitVector w(n); r.size = n; randomize(w, r, n); BitVector x(w); check(x, r); check(w, r); BitVector y(std::move(w)); check(y, r); v = y; check(v, r);
            if (n) { y[0] = !(bool)y[0]; check(v, r); } break; }
  }
}
ENTRY(V01_at, "at() on any vector of 0..140 bits, any 64-bit index") {
  EXPECT("threw"); EXPECT("ok");
  Ref r = fresh_ref(); size_t n = sym_range(0, N);
  BitVector v(n); r.size = n; randomize(v, r, n);
  const BitVector &c = v;
  size_t i = sym_u64(); bool threw = false, val = false;
  bool useConst = sym_pick(0, 1);
  try { val = useConst ? (bool)c.at(i) : (bool)v.at(i); } catch (const std::out_of_range &) { threw = true; }
  ASSERT(threw == (i >= n), "at(i) throws exactly when i >= size");
  if (threw) { REACH("threw"); return; }
  REACH("ok");
  if (i == r.q) ASSERT(val == r.bit, "at(i) is the bit at i");
  if (!useConst) { v.at(i) = !val; if (i == r.q) r.bit = !val; check(v, r); }
}
ENTRY(V01_ends, "front, back, begin/end and data() on any vector of 1..140 bits") {
  Ref r = fresh_ref(); size_t n = sym_range(1, N);
  BitVector v(n); r.size = n; randomize(v, r, n); const BitVector &c = v;
  ASSERT((bool)v.front() == (bool)v[0] && (bool)c.front() == (bool)v[0], "front() is element 0");
  ASSERT((bool)v.back() == (bool)v[n - 1] && (bool)c.back() == (bool)v[n - 1], "back() is the last element");
  ASSERT((bool)*v.begin() == (bool)v[0] && (bool)*c.begin() == (bool)v[0], "*begin() is element 0");
  ASSERT(v.end() - v.begin() == (ptrdiff_t)n && c.end() - c.begin() == (ptrdiff_t)n, "end() - begin() is the size");
  ASSUME(r.q < n);
  ASSERT(((v.data()[r.q / 64] >> (r.q % 64)) & 1) == (uint64_t)r.bit, "data() holds the bits, least significant first");
  v.back() = !(bool)v.back(); if (r.q == n - 1) r.bit = !r.bit; check(v, r);
  v.front() = true; if (r.q == 0) r.bit = true; check(v, r);
}

// ---- large vectors: fixed contents, symbolic fill bits, one symbolic index
static const size_t SZ[] = {0, 255, 256, 257, 300, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001};
static size_t large(size_t lo) { size_t k = sym_pick(lo, 15); return SZ[k]; }
static uint64_t patw(size_t w) { uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }
static bool pat(size_t i) { return patw(i / 64) >> (i % 64) & 1; }
static uint64_t below(size_t i, size_t w) { return i >= w * 64 + 64 ? ~0ull : i <= w * 64 ? 0 : (1ull << (i % 64)) - 1; } // the bits of word w that lie before index i
static void paint(BitVector &v, size_t n) { for (size_t w = 0; w * 64 < n; w++) v.data()[w] = patw(w) & below(n, w); }
// every word of v: the first m bits are pat, then b up to size n
KEEP static void all(const BitVector &v, size_t m, size_t n, bool b) {
  ASSERT(v.size() == n && v.empty() == (n == 0), "size equals the reference size"); bool ok = true; if (m > n) m = n; const auto *d = v.data();
  for (size_t w = 0; w * 64 < n; w++) { uint64_t mask = below(n, w), old = below(m, w), want = (patw(w) & old) | (b ? ~old : 0); ok = ok & ((d[w] & mask) == (want & mask)); }
  ASSERT(ok, "every bit equals the reference bit");
  for (size_t i = n > 3 ? n - 3 : 0; i < n; i++) { bool e = i < m ? pat(i) : b; ASSERT((bool)v[i] == e, "v[i] at the end"); }
}
#define BL "sizes 255..70001 at selected values around 2^8, 2^10, 2^12, 2^15 and 2^16"
ENTRY(V01_large_construct, "constructors and assign, either bit, " BL) { bool b = sym_bool(); size_t n = large(1); switch (sym_pick(0, 2)) { case 0: { BitVector v(n, b); all(v, 0, n, b); break; } case 1: { BitVector v(n); all(v, 0, n, false); break; } case 2: { size_t m = large(0); BitVector v(m, !b); v.assign(n, b); all(v, 0, n, b); break; } } }
ENTRY(V01_large_resize, "resize from any to any of the sizes, either bit, then 1 push_back; " BL) { size_t m = large(0), n = large(0); bool b = sym_bool(); BitVector v(m); paint(v, m); if (sym_pick(0, 1)) v.resize(n, b); else { v.resize(n); b = false; } all(v, m, n, b); v.push_back(b); if (m <= n) all(v, m, n + 1, b); else ASSERT(v.size() == n + 1 && (bool)v[n] == b, "push_back"); if (m < 5000 && n < 5000) { BitVector w(v); all(w, m <= n ? m : n, n + 1, b); } }
ENTRY(V01_large_push, "up to 65535 (thorough 70001) push_backs of fixed bits, the last 3 symbolic") { BitVector v; size_t n = sym_pick(0, TIER(12, 15)); n = SZ[n]; for (size_t i = 0; i < n; i++) v.push_back(pat(i)); bool b = sym_bool(); for (int i = 0; i < 3; i++) v.push_back(b); all(v, n, n + 3, b); }
ENTRY(V01_large_set, "one write at any index of vectors of up to 4097 bits") { size_t n = SZ[sym_pick(1, 9)]; BitVector v(n); paint(v, n); size_t i = sym_range(0, n - 1), q = sym_range(0, n - 1); bool b = sym_bool(), old = v[q]; v[i] = b; ASSERT((bool)v[q] == (i == q ? b : old), "v[q] equals the reference bit"); ASSERT(v.size() == n, "size"); }
ENTRY(V02_large_fill, "fill of selected ranges of vectors of fixed content, either bit; " BL) {
  size_t n = large(1); static const size_t A[] = {0, 1, 63, 64, 200, 65534}; size_t a = A[sym_pick(0, 5)], c = sym_pick(0, 4), e = c == 0 ? n : c == 1 ? n - 1 : c == 2 ? a + 64 : c == 3 ? n / 64 * 64 : a + (n - a) / 2; if (a > n) return; if (e < a || e > n) e = n;
  BitVector v(n); paint(v, n); bool b = sym_bool(); v.fill(v.begin() + a, v.begin() + e, b); ASSERT(v.size() == n, "size"); bool ok = true; const auto *d = v.data();
  for (size_t w = 0; w * 64 < n; w++) { uint64_t mask = below(n, w), in = below(e, w) & ~below(a, w), want = (patw(w) & ~in) | (b ? in : 0); ok = ok & ((d[w] & mask) == (want & mask)); }
  ASSERT(ok, "exactly the range is filled");
}
ENTRY(V02_large_move, "any two indices of a vector of 2^20 bits: distances and order of iterators") {
  size_t n = 1u << 20; BitVector v(n); uint64_t i = sym_range(0, n); uint64_t j = sym_range(0, n); ptrdiff_t d = (ptrdiff_t)(j - i); auto it = v.begin() + (ptrdiff_t)i; auto jt = it + d; ASSERT(jt - it == d && it - jt == -d, "difference"); ASSERT(jt == v.begin() + (ptrdiff_t)j, "it + d"); ASSERT((it < jt) == (i < j) && (it == jt) == (i == j) && (it > jt) == (i > j), "order"); it += d; ASSERT(it == jt, "it += d"); it -= d; ASSERT(it - v.begin() == (ptrdiff_t)i, "it -= d");
}
// ---- V02
ENTRY(V02_fill, "any vector of 0..140 bits (thorough 200), any range, either value") {
  EXPECT("one word"); EXPECT("many words"); EXPECT("empty range"); EXPECT("word end");
  Ref r = fresh_ref(); size_t n = sym_range(0, N);
  BitVector v(n); r.size = n; randomize(v, r, n);
  size_t a = sym_range(0, N), b = sym_range(0, N); bool x = sym_bool(); ASSUME(a <= b && b <= n);
  v.fill(v.begin() + a, v.begin() + b, x);
  HIT(a == b, "empty range"); HIT(a < b && a / 64 == (b - 1) / 64, "one word"); HIT(b > a + 70, "many words"); HIT(b > a && b % 64 == 0, "word end");
  if (r.q >= a && r.q < b) r.bit = x;
  check(v, r);
}
ENTRY(V02_fill_whole, "fill of the whole vector, 0..140 bits (thorough 200)") {
  Ref r = fresh_ref(); size_t n = sym_range(0, N);
  BitVector v(n); r.size = n; randomize(v, r, n); bool x = sym_bool();
  v.fill(v.begin(), v.end(), x); r.bit = x; check(v, r);
}
ENTRY(V02_move, "any start and any distance within a vector of up to 140 bits (thorough 200), both directions, all operators") {
  EXPECT("back"); EXPECT("forward");
  size_t n = sym_range(1, N); BitVector v(n); Ref r = fresh_ref(); r.size = n; randomize(v, r, n);
  size_t i = sym_range(0, N), j = sym_range(0, N); ASSUME(i <= n && j <= n);
  ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
  HIT(d < 0, "back"); HIT(d > 0, "forward");
  auto it = v.begin() + i; auto jt = v.begin() + j;
  auto k = it; k += d; ASSERT(k == jt, "it += d");
  k = it; k -= -d; ASSERT(k == jt, "it -= -d");
  ASSERT(it + d == jt && it - (-d) == jt && d + it == jt, "it + d");
  ASSERT(jt - it == d && it - jt == -d, "difference");
  ASSERT(v.end() - jt == (ptrdiff_t)(n - j), "distance to end");
  if (j < n) {
    ASSERT((bool)it[d] == (bool)v[j], "it[d] is the bit at index i + d");
    ASSERT((bool)*jt == (bool)v[j], "*it is the bit at its index");
    *jt = !(bool)*jt; if (j == r.q) r.bit = !r.bit; check(v, r);
  }
}
ENTRY(V02_cmove, "const iterators: any start and distance within up to 140 bits (thorough 200)") {
  size_t n = sym_range(1, N); BitVector v0(n); Ref r = fresh_ref(); r.size = n; randomize(v0, r, n); const BitVector &v = v0;
  size_t i = sym_range(0, N), j = sym_range(0, N); ASSUME(i <= n && j <= n);
  ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
  auto it = v.begin() + i; auto jt = v.begin() + j;
  auto k = it; k += d; ASSERT(k == jt, "it += d"); k = jt; k -= d; ASSERT(k == it, "it -= d");
  ASSERT(jt - it == d, "difference");
  ASSERT((it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j) && (it == jt) == (i == j), "order");
  if (j < n) { ASSERT((bool)*jt == (bool)v[j] && (bool)it[d] == (bool)v[j], "dereference"); }
}
ENTRY(V02_incdec, "single steps from any index of a vector of up to 140 bits (thorough 200)") {
  size_t n = sym_range(1, N); BitVector v(n); Ref r = fresh_ref(); r.size = n; randomize(v, r, n);
  size_t i = sym_range(0, N); ASSUME(i < n);
  auto it = v.begin() + i; auto jt = it; ++jt;
  ASSERT(jt == v.begin() + (i + 1) && jt - it == 1 && jt > it, "++it is at index i + 1");
  --jt; ASSERT(jt == it && (bool)*jt == (bool)v[i], "--it returns");
}
ENTRY(V02_compare, "all pairs of iterators of a vector of up to 140 bits (thorough 200)") {
  size_t n = sym_range(1, N); BitVector v(n);
  size_t i = sym_range(0, N), j = sym_range(0, N); ASSUME(i <= n && j <= n);
  auto it = v.begin() + i, jt = v.begin() + j;
  ASSERT((it == jt) == (i == j), "=="); ASSERT((it != jt) == (i != j), "!=");
  ASSERT((it < jt) == (i < j), "<"); ASSERT((it > jt) == (i > j), ">");
  ASSERT((it <= jt) == (i <= j), "<="); ASSERT((it >= jt) == (i >= j), ">=");
}
ENTRY(V02_traverse, "a full pass over vectors of 0..70 bits") {
  size_t n = sym_pick(0, 5); n = n == 3 ? 63 : n == 4 ? 64 : n == 5 ? 70 : n;
  BitVector v(n); Ref r = fresh_ref(); r.size = n; randomize(v, r, n);
  size_t k = 0; for (auto it = v.begin(); it != v.end(); ++it, ++k) { if (k == r.q) ASSERT((bool)*it == r.bit, "the k-th element visited is v[k]"); if (k > n) break; }
  ASSERT(k == n, "a pass visits size() elements");
}
