// S01, S02: rank and select of SuccinctBitVector.
#include "sym.h"
#include <sim_ds/SuccinctBitVector.hpp>
using sim_ds::BitVector; using sim_ds::SuccinctBitVector;

struct Words { std::vector<uint64_t> w; size_t n; };
static BitVector build(const Words &s) { BitVector v(s.n); for (size_t i = 0; i < s.w.size(); i++) v.data()[i] = s.w[i]; return v; }
static uint64_t tailMask(size_t r) { return r == 0 ? ~0ull : (1ull << r) - 1; }
// n bits, all of them symbolic; leftovers behind the end are arbitrary too when 'dirty'
static Words symbolicBits(size_t words, size_t tail, bool dirty) { Words s; s.n = words * 64 + tail; for (size_t i = 0; i < words; i++) s.w.push_back(sym_u64()); if (tail) { uint64_t x = sym_u64(); s.w.push_back(dirty ? x : x & tailMask(tail)); } return s; }
static size_t refRank(const Words &s, size_t i) {
  size_t r = 0;
  for (size_t w = 0; w < s.w.size(); w++) { uint64_t x = s.w[w]; if (w * 64 >= i) x = 0; else if (i < w * 64 + 64) x &= (1ull << (i - w * 64)) - 1; r += __builtin_popcountll(x); }
  return r;
}
static const size_t TAILS[] = {0, 1, 31, 63};

template <bool Sel> static void rankAll(size_t words, size_t tail) {
  bool dirty = sym_pick(0, 1); Words s = symbolicBits(words, tail, dirty); SuccinctBitVector<Sel> b(build(s));
  ASSERT(b.size() == s.n, "size");
  size_t qw = sym_pick(0, s.n / 64), qr = sym_range(0, 63), i = qw * 64 + qr; ASSUME(i <= s.n);
  size_t r = b.rank(i); OBS(r);
  ASSERT(r == refRank(s, i), "rank(i) is the number of 1 bits before i");
  ASSERT(b.rank_1(i) == r && b.rank_0(i) == i - r, "rank_1 and rank_0");
  HIT(i == s.n, "at the end");
  if (i < s.n) { ASSERT(b[i] == (bool)((s.w[qw] >> qr) & 1), "operator[] returns the bit built from"); ASSERT(((b.data()[qw] >> qr) & 1) == ((s.w[qw] >> qr) & 1), "data()"); }
}
ENTRY(S01_small, "every content of 0..130 bits, every prefix") {
  EXPECT("at the end"); size_t w = sym_pick(0, 2), t = sym_range(0, 63); rankAll<true>(w, t); }
ENTRY(S01_no_select, "every content of 0..130 bits, every prefix, without select support") {
  EXPECT("at the end"); size_t w = sym_pick(0, 2), t = TAILS[sym_pick(0, 3)]; rankAll<false>(w, t); }
ENTRY(S01_blocks, "every content of 448, 512, 576, 960, 1024 and 1088 bits plus 0, 1, 31 or 63 (thorough up to 2112), every prefix") {
  EXPECT("at the end");
  static const size_t W[] = {7, 8, 9, 15, 16, 17, 24, 31, 32, 33}; size_t w = W[sym_pick(0, TIER(5, 9))], t = TAILS[sym_pick(0, 3)]; rankAll<true>(w, t); }
ENTRY(S01_construct, "default, list, copy and move construction; up to 6 bits by list") {
  switch (sym_pick(0, 3)) {
  case 0: { SuccinctBitVector<true> b; ASSERT(b.size() == 0 && b.rank(0) == 0 && b.rank_0(0) == 0, "an empty vector has rank 0"); break; }
  case 1: { bool a = sym_bool(), c = sym_bool(), d = sym_bool(); SuccinctBitVector<true> b{a, c, d, true}; ASSERT(b.size() == 4, "size"); ASSERT(b.rank(0) == 0 && b.rank(1) == (size_t)a && b.rank(2) == (size_t)a + c && b.rank(3) == (size_t)a + c + d && b.rank(4) == (size_t)a + c + d + 1, "rank"); ASSERT(b[0] == a && b[1] == c && b[2] == d && b[3], "bits"); break; }
  case 2: { Words s = symbolicBits(8, 5, true); BitVector v = build(s); SuccinctBitVector<true> b(v); size_t i = sym_pick(0, 8) * 64 + sym_range(0, 63); ASSUME(i <= s.n); size_t w = refRank(s, i); ASSERT(b.rank(i) == w, "rank after building from a copy"); SuccinctBitVector<true> c(b), d(std::move(b)); ASSERT(c.rank(i) == w && d.rank(i) == w, "rank of a copy and of a moved-to vector"); SuccinctBitVector<true> e; e = c; ASSERT(e.rank(i) == w && e.size() == s.n, "rank of an assigned vector"); break; }
  case 3: { BitVector v; SuccinctBitVector<true> b(v); ASSERT(b.size() == 0 && b.rank(0) == 0, "an empty vector has rank 0"); SuccinctBitVector<false> c(v); ASSERT(c.rank(0) == 0, "an empty vector has rank 0"); break; }
  }
}

// ---- S02
KEEP static void selectAt(const SuccinctBitVector<true> &b, const Words &s, size_t ones) {
  size_t k = sym_bits(14); ASSUME(k < ones);
  size_t p = b.select(k); OBS(p);
  ASSERT(p < s.n, "select(k) is a position");
  uint64_t word = 0; for (size_t w = 0; w < s.w.size(); w++) if (p / 64 == w) word = s.w[w];
  ASSERT((word >> (p % 64)) & 1, "select(k) is the position of a 1 bit");
  ASSERT(refRank(s, p) == k, "exactly k 1 bits precede select(k)");
  HIT(k == ones - 1, "last"); HIT(k >= 512, "second tip");
}
static size_t ones(const Words &s) { return refRank(s, s.n); }
ENTRY(S02_small, "every content of 1..127 bits, every k") {
  EXPECT("last");
  size_t words = sym_pick(0, 1), tail = TAILS[sym_pick(0, 3)]; Words s = symbolicBits(words, tail, true); if (!s.n) return;
  SuccinctBitVector<true> b(build(s)); selectAt(b, s, ones(s));
}
// the same question asked from the position's side: for the 1 bit at p, select(rank(p)) is p
KEEP static void selectBack(const SuccinctBitVector<true> &b, const Words &s, size_t qw, size_t total) {
  size_t r = sym_range(0, 63), p = qw * 64 + r; ASSUME((s.w[qw] >> r) & 1);
  size_t k = 0; for (size_t w = 0; w < qw; w++) k += __builtin_popcountll(s.w[w]);
  k += __builtin_popcountll(s.w[qw] & ((1ull << r) - 1));
  size_t got = b.select(k); OBS(got);
  ASSERT(got == p, "select(k) is the position of the k-th 1 bit");
  HIT(k + 1 == total, "last"); HIT(k >= 512, "second tip");
}
// large vectors: the filling of each 512-bit block is picked; one word has 14 symbolic bits (arbitrary words: S02_small, B04)
static const uint64_t F[] = {0, ~0ull, 0x8040201008040201ull, 0xfffffffffffffffeull};
static void large(size_t blocks, size_t extra, size_t tail, unsigned fillers, unsigned places) { MERGE(0);
  Words s; s.n = blocks * 512 + extra * 64 + tail;
  for (size_t k = 0; k < blocks; k++) { uint64_t f = F[sym_pick(0, fillers - 1)]; for (int j = 0; j < 8; j++) s.w.push_back(f); }
  uint64_t f = extra + tail ? F[sym_pick(0, fillers - 1)] : 0; for (size_t j = 0; j < extra; j++) s.w.push_back(f); if (tail) s.w.push_back(f & tailMask(tail));
  if (s.w.empty()) return;
  size_t n = s.w.size(), at = sym_pick(0, places - 1); at = at == 0 ? n / 2 : at == 1 ? n - 1 : at == 2 ? 0 : 7; if (at >= n) return;
  s.w[at] = sym_u64() & 0x8118004002240183ull; if (tail && at == n - 1) s.w[at] &= tailMask(tail);
  SuccinctBitVector<true> b(build(s));
  size_t q = sym_pick(0, 7); q = q == 0 ? 0 : q == 1 ? n - 1 : q == 2 ? at : q == 3 ? at + 1 : q == 4 ? 7 : q == 5 ? 8 : q == 6 ? (n - 1) / 8 * 8 : n - 2; if (q >= n) return;
  selectBack(b, s, q, ones(s));
}
ENTRY(S02_blocks2a, "0..2 blocks of 512 bits, each 0s, 1s or a sparse pattern, plus 0 words and 0 or 17 bits; 14 bits of one word symbolic; every 1 bit of eight words at block and vector ends") {
  EXPECT("last"); EXPECT("second tip"); size_t w = sym_pick(0, 2), t = sym_pick(0, 1) * 17; large(w, 0, t, 3, TIER(2, 4)); }
ENTRY(S02_blocks2b, "0..2 blocks of 512 bits, each 0s, 1s or a sparse pattern, plus 3 words and 0 or 17 bits; 14 bits of one word symbolic; every 1 bit of eight words at block and vector ends") {
  EXPECT("last"); EXPECT("second tip"); size_t w = sym_pick(0, 2), t = sym_pick(0, 1) * 17; large(w, 3, t, 3, TIER(2, 4)); }
ENTRY(S02_blocks2c, "0..2 blocks of 512 bits, each 0s, 1s or a sparse pattern, plus 7 words and 0 or 17 bits; 14 bits of one word symbolic; every 1 bit of eight words at block and vector ends") {
  EXPECT("last"); EXPECT("second tip"); size_t w = sym_pick(0, 2), t = sym_pick(0, 1) * 17; large(w, 7, t, 3, TIER(2, 4)); }
ENTRY(S02_blocks4, "3..4 blocks of 512 bits, each 0s or 1s (thorough also a sparse pattern), plus 3 words and 17 bits; 14 bits of one word symbolic; every 1 bit of eight words at block and vector ends") {
  EXPECT("last"); EXPECT("second tip");
  large(sym_pick(3, 4), 3, 17, TIER(2, 4), TIER(3, 4)); }
ENTRY(S02_blocks_whole, "1..3 blocks of 512 bits, each 0s or 1s, and nothing behind them; 14 bits of one word symbolic; every 1 bit of eight words at block and vector ends") {
  EXPECT("last"); EXPECT("second tip");
  large(sym_pick(1, 3), 0, 0, TIER(2, 3), TIER(3, 4)); }
// very large vectors: fixed fillings of different densities with one symbolic bit
static const size_t BIG[] = {4095, 4096, 4097, 32768, 65535, 65536, 66049, 131584};
static Words filling(size_t n, size_t kind) { // 0: random half, 1: one bit in 1024 (the last of its word), 2: all ones, 3: long runs of zeros and ones
  Words s; s.n = n; for (size_t w = 0; w * 64 < n; w++) { uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; if (kind == 1) x = w % 16 == 5 ? 1ull << 63 : 0; if (kind == 2) x = ~0ull; if (kind == 3) x = w / 300 % 2 ? ~0ull : 0; if (n - w * 64 < 64) x &= tailMask(n % 64); s.w.push_back(x); } return s;
}
template <bool Sel, class F> static void very(F ask) {
  size_t n = BIG[sym_pick(0, TIER(6, 7))], kind = sym_pick(0, 3); Words s = filling(n, kind); size_t at = n * 2 / 3; bool x = sym_bool(); s.w[at / 64] = (s.w[at / 64] & ~(1ull << (at % 64))) | ((uint64_t)x << (at % 64));
  SuccinctBitVector<Sel> b(build(s)); ASSERT(b.size() == n, "size"); ask(b, s, at, x);
}
#define BV "vectors of 4095..66049 (thorough 131584) bits in 4 fillings, one bit symbolic"
template <class B> static void ranksAt(const B &b, const Words &s, size_t at, bool x) { bool ok = true, acc = true; size_t r = 0, low = 0; for (size_t w = 0; w <= s.w.size(); w++) { size_t i = w * 64; if (i <= s.n) ok = ok & (b.rank(i) == r) & (b.rank_0(i) == i - r); if (w < s.w.size()) { if (w % 7 == 3 && i + 37 < s.n) { ok = ok & (b.rank(i + 37) == r + __builtin_popcountll(s.w[w] & ((1ull << 37) - 1))); acc = acc & (b[i + 37] == (bool)(s.w[w] >> 37 & 1)); } r += __builtin_popcountll(s.w[w]); } } ASSERT(ok, "rank(i) is the number of 1 bits before i"); ASSERT(b.rank(s.n) == r, "rank(size) is the number of 1 bits"); ASSERT(acc && b[at] == x, "operator[]"); }
ENTRY(S01_very_large, BV ", ranks at every word and every 7th word's middle") { STEPS(20000000); very<true>([](auto &b, const Words &s, size_t at, bool x) { ranksAt(b, s, at, x); }); }
ENTRY(S01_very_large_no_select, BV ", without select support") { STEPS(20000000); very<false>([](auto &b, const Words &s, size_t at, bool x) { ranksAt(b, s, at, x); }); }
ENTRY(S02_very_large, BV " (the two cases of the bit split); select of the first and last 1 bit of every 5th word and of the last word") { STEPS(40000000);
  very<true>([](auto &b, const Words &s0, size_t at, bool x) { Words s = s0; x = __sym_concretize(x); s.w[at / 64] = (s.w[at / 64] & ~(1ull << (at % 64))) | ((uint64_t)x << (at % 64)); bool ok = true; size_t r = 0; for (size_t w = 0; w < s.w.size(); w++) { uint64_t y = s.w[w]; size_t c = __builtin_popcountll(y); if (y && (w % 5 == 0 || w + 1 == s.w.size() || w == at / 64)) ok = ok & (b.select(r) == w * 64 + __builtin_ctzll(y)) & (b.select(r + c - 1) == w * 64 + 63 - __builtin_clzll(y)); r += c; } ASSERT(ok, "select(k) is the position of the k-th 1 bit"); });
}
