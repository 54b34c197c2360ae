// B06: 256-bit helpers
#include "sym.h"
#ifdef __clang__
#pragma clang attribute push(__attribute__((noinline)), apply_to = function)
#endif
#include <sim_ds/bit_util256.hpp>
#ifdef __clang__
#pragma clang attribute pop
#endif
namespace bu = sim_ds::bit_util;
struct Blk { alignas(32) uint64_t pre[4]; uint64_t w[4]; uint64_t post[4]; };
static void fill(Blk &b) { for (int i = 0; i < 4; i++) { b.pre[i] = sym_u64(); b.w[i] = sym_u64(); b.post[i] = sym_u64(); } }
static void same_guard(const Blk &a, const Blk &b) { bool ok = true; for (int i = 0; i < 4; i++) ok &= a.pre[i] == b.pre[i] && a.post[i] == b.post[i]; ASSERT(ok, "words around the block are untouched"); }

ENTRY(B06_count, "every 256-bit block") {
  EXPECT("zero"); EXPECT("full");
  alignas(32) uint64_t x[4]; for (auto &w : x) w = sym_u64();
  int pc = 0; for (auto w : x) pc += __builtin_popcountll(w);
  int tz = 256, lz = 256; for (int k = 255; k >= 0; k--) tz = (x[k / 64] >> (k % 64)) & 1 ? k : tz; for (int k = 0; k < 256; k++) lz = (x[k / 64] >> (k % 64)) & 1 ? 255 - k : lz;
  int a = bu::popcnt256(x), b = bu::ctz256(x), c = bu::clz256(x); bool z = bu::is_zero256(x); OBS(a); OBS(b); OBS(c); OBS(z);
  ASSERT(a == pc, "popcnt256"); ASSERT(b == tz, "ctz256"); ASSERT(c == lz, "clz256"); ASSERT(z == ((x[0] | x[1] | x[2] | x[3]) == 0), "is_zero256");
  HIT(z, "zero"); HIT(a == 256, "full");
#ifdef __AVX2__
  ASSERT(bu::is_zero256_intrinsics(_mm256_load_si256((const __m256i *)x)) == z, "is_zero256_intrinsics");
#endif
}
ENTRY(B06_set_copy, "every block content, both fill values") {
  Blk s, d; fill(s); fill(d); Blk s0 = s, d0 = d; bool bit = sym_bool();
  bu::copy256_epi64(s.w, d.w); bool eq = true; for (int i = 0; i < 4; i++) eq &= d.w[i] == s0.w[i] && s.w[i] == s0.w[i];
  ASSERT(eq, "copy256_epi64 copies the block"); same_guard(d, d0); same_guard(s, s0);
  bu::set256_epi1(bit, d.w); eq = true; for (int i = 0; i < 4; i++) eq &= d.w[i] == (bit ? ~0ull : 0); ASSERT(eq, "set256_epi1 fills the block"); same_guard(d, d0);
}
static uint64_t xref(const uint64_t *x, unsigned mask, unsigned word) { uint64_t r = 0; for (unsigned j = 0; j < 64; j++) { unsigned t = (word * 64 + j) ^ mask; r |= ((x[t / 64] >> (t % 64)) & 1) << j; } return r; }
ENTRY(B06_xor_map, "every 256-bit block, every 8-bit mask") {
  EXPECT("mask255");
  Blk s, d; fill(s); fill(d); Blk s0 = s, d0 = d; uint8_t mask = (uint8_t)sym_pick(0, 255); HIT(mask == 255, "mask255");
  bu::xor_map(s.w, mask, d.w); for (int i = 0; i < 4; i++) { OBS(d.w[i]); ASSERT(d.w[i] == xref(s0.w, mask, i), "xor_map permutes bit j to j^mask"); ASSERT(s.w[i] == s0.w[i], "xor_map leaves the source alone"); }
  same_guard(d, d0);
#ifdef __AVX2__
  alignas(32) uint64_t e[4]; _mm256_store_si256((__m256i *)e, bu::xor_map_intrinsics(_mm256_load_si256((const __m256i *)s0.w), mask));
  for (int i = 0; i < 4; i++) ASSERT(e[i] == xref(s0.w, mask, i), "xor_map_intrinsics permutes bit j to j^mask");
#endif
}
ENTRY(B06_xor_map_inplace, "every 256-bit block, every 8-bit mask; twice gives the block back") {
  alignas(32) uint64_t x[4], y[4], z[4]; for (auto &w : x) w = sym_u64(); uint8_t mask = (uint8_t)sym_pick(0, 255);
  bu::xor_map(x, mask, y); bu::xor_map(y, mask, z); for (int i = 0; i < 4; i++) ASSERT(z[i] == x[i], "xor_map is an involution");
}
