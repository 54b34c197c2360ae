// O01: the factor oracle.
#include "sym.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
using sim_ds::FactorOracle;

struct Buf { // a string in memory of exactly its size
  unsigned char *p; size_t n; explicit Buf(size_t n) : p(new unsigned char[n]), n(n) {} ~Buf() { delete[] p; } Buf(const Buf &) = delete;
  std::string_view sv() const { return std::string_view((const char *)p, n); }
};
static bool at(const Buf &t, size_t i, const Buf &q) { bool e = true; for (size_t j = 0; j < q.n; j++) e = e & (t.p[i + j] == q.p[j]); return e; }
static void judge(const FactorOracle &o, const Buf &t, const Buf &q) {
  bool r = o.accept(q.sv()), factor = false, foreign = false;
  for (size_t i = 0; i + q.n <= t.n; i++) factor = factor | at(t, i, q);
  for (size_t j = 0; j < q.n; j++) { bool in = false; for (size_t i = 0; i < t.n; i++) in = in | (q.p[j] == t.p[i]); foreign = foreign | !in; }
  ASSERT(r | !factor, "every factor of the text is accepted");
  ASSERT(!(r & foreign), "a string with a byte that is not in the text is rejected");
  if (q.n >= t.n) ASSERT(!r | factor, "a string as long as the text or longer is rejected unless it is the text");
  HIT(factor && q.n > 0, "factor"); HIT(!r, "rejected");
}
static const unsigned char PAL[4] = {'b', 'a', 0xff, 1};
#define WORDS(name, L, A, B, QB, bound) ENTRY(O01_##name, bound) { \
  STEPS(600000); EXPECT("factor"); EXPECT("rejected"); size_t n = sym_pick(A, B); Buf t(n); for (size_t i = 0; i < n; i++) t.p[i] = PAL[sym_pick(0, L - 1)]; \
  FactorOracle o(std::string((char *)t.p, n)); size_t m = sym_pick(0, n + 1); Buf q(m); for (size_t j = 0; j < m; j++) q.p[j] = QB; judge(o, t, q); }
WORDS(two, 2, 0, TIER(6, 8), sym_u8(), "every text of 0..6 (thorough 8) letters of {a, b}; every query of up to one byte more than the text")
WORDS(three, 3, 1, TIER(4, 5), sym_u8(), "every text of 1..4 (thorough 5) letters of {a, b, 0xff}; every query of up to one byte more than the text")
WORDS(longer, 2, TIER(6, 7), TIER(7, 8), PAL[sym_bits(1)], "every text of 6..7 (thorough 7..8) letters of {a, b}; every query over {a, b} of up to one letter more than the text")
ENTRY(O01_symbolic, "every text of 1..2 non-NUL bytes, every query of 0..3 bytes") {
  STEPS(600000); EXPECT("factor"); EXPECT("rejected"); size_t n = sym_pick(1, 2); Buf t(n); for (size_t i = 0; i < n; i++) t.p[i] = sym_range(1, 255);
  FactorOracle o(std::string((char *)t.p, n)); size_t m = sym_pick(0, n + 1); Buf q(m); for (size_t j = 0; j < m; j++) q.p[j] = sym_u8(); judge(o, t, q); }
// Long texts: conflicts between the transitions of different states, several blocks of elements. The text is fixed by
// (letters, length, seed); the query is a factor that starts anywhere on a grid and ends anywhere, followed by any byte.
static void fill(Buf &t, size_t letters, uint32_t seed) { uint32_t x = seed; for (size_t i = 0; i < t.n; i++) { x = x * 1103515245u + 12345u; t.p[i] = (unsigned char)(1 + ((x >> 16) & 0x7fff) % letters); } }
static void longtext(size_t letters, size_t n, uint32_t seed, size_t grid) {
  STEPS(40000000); Buf t(n); fill(t, letters, seed); FactorOracle o(std::string((char *)t.p, n));
  bool in[256] = {}; for (size_t i = 0; i < n; i++) in[t.p[i]] = true;
  for (size_t a = 0; a < n; a += grid) { size_t s = 0; bool all = true; for (size_t i = a; i < n; i++) all = all && o.image(s, t.p[i]); ASSERT(all, "every factor of the text is accepted"); }
  uint8_t c = sym_u8(); size_t s = 0; bool r = o.image(s, c); ASSERT(r == in[c], "a single byte is accepted if and only if it is in the text");
  for (size_t a = 0; a < n; a += 7 * grid) { size_t l = a % 5, f = 0; for (size_t i = a; i < a + l && i < n; i++) o.image(f, t.p[i]); bool r2 = o.image(f, c); ASSERT(!r2 | in[c], "a byte that is not in the text is rejected in every state"); }
  HIT(r, "accepted"); HIT(!r, "rejected");
}
#define LT(name, letters, seeds, lo, hi, step, grid, bound) ENTRY(O01_##name, bound) { EXPECT("accepted"); EXPECT("rejected"); size_t k = sym_pick(0, (hi - lo) / step); longtext(letters, lo + k * step, 1 + (uint32_t)sym_pick(0, seeds - 1), grid); }
LT(long10, 10, TIER(6, 60), 200, 260, 20, 20, "pseudo-random texts of 200, 220, 240 and 260 letters over 10 letters, 6 (thorough 60) seeds; any byte after factors on a grid")
LT(long8, 8, TIER(12, 60), 211, 255, 44, 20, "pseudo-random texts of 211 and 255 letters over 8 letters, 12 (thorough 60) seeds; any byte after factors on a grid")
LT(long40, 40, TIER(4, 20), 255, 257, 1, 20, "pseudo-random texts of 255..257 letters over 40 letters, 4 (20) seeds; any byte after factors on a grid")
LT(long255, 255, TIER(4, 20), 100, 500, 100, 10, "pseudo-random texts of 100, 200, .. 500 bytes over 255 letters, 4 (20) seeds; any byte after factors on a grid")
LT(long3, 3, TIER(4, 20), 64, 576, 256, 10, "pseudo-random texts of 64, 320 and 576 letters over 3 letters, 4 (20) seeds; any byte after factors on a grid")

// ---- O02: step by step and at once
static void stepwise(const unsigned char *t, size_t n, const Buf &q) { STEPS(20000000);
  FactorOracle o(t, t + n), o2(std::string((const char *)t, n)); size_t state = 0, p = 0; for (; p < q.n; p++) { size_t before = state; if (!o.image(state, q.p[p])) { ASSERT(state == before, "a refused byte leaves the state"); break; } ASSERT(state > before && state <= n, "a step leads forward, at most to the end of the text"); ASSERT(state - 1 < n && t[state - 1] == q.p[p], "a state is reached by the byte of the text before it"); }
  ASSERT(p <= n, "no string longer than the text is followed"); ASSERT(o.accept(q.sv()) == (p == q.n), "a string is accepted exactly if every step is"); ASSERT(o2.accept(q.sv()) == (p == q.n), "the same however the oracle was built"); FactorOracle::Exproler e(q.sv()); bool r = o.accept(e); ASSERT(r == (p == q.n) && e.pos() == p && e.size() == q.n, "the explorer stops behind the longest prefix that is accepted"); ASSERT(e.text().size() == q.n, "and keeps its string");
  std::string_view sv = q.sv(); for (size_t l = 0; l <= q.n; l++) ASSERT(o.accept(sv.substr(0, l)) == (l <= p), "every prefix of an accepted string is accepted, no extension of a refused one"); HIT(p < q.n && p > 0, "stopped inside"); HIT(p == q.n && p > 1, "accepted");
}
ENTRY(O02_words, "every text of 0..3 (thorough 4) letters of {a, b, 0xff}; every query of up to one byte more than the text") { EXPECT("stopped inside"); EXPECT("accepted"); size_t n = sym_pick(0, TIER(3, 4)); Buf t(n); for (size_t i = 0; i < n; i++) t.p[i] = PAL[sym_pick(0, 2)]; size_t m = sym_pick(0, n + 1); Buf q(m); for (size_t j = 0; j < m; j++) q.p[j] = sym_u8(); stepwise(t.p, n, q); }
ENTRY(O02_long, "pseudo-random texts of 30, 255, 256 and 300 letters over 2, 10 and 200 letters; queries of 3 letters of the text and 2 any bytes") { EXPECT("stopped inside"); static const size_t N[] = {30, 255, 256, 300}, L[] = {2, 10, 200}; size_t n = N[sym_pick(0, 3)], l = L[sym_pick(0, 2)]; Buf t(n); fill(t, l, 5); size_t from = sym_pick(0, 1) ? n - 4 : n / 2; Buf q(5); for (size_t j = 0; j < 3; j++) q.p[j] = t.p[from + j]; q.p[3] = sym_u8(); q.p[4] = sym_u8(); stepwise(t.p, n, q); }
