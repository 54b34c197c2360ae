// B01..B05: word helpers, for every argument. Compiled once per instruction-set configuration.
#include "sym.h"
using namespace sim_ds;
namespace bu = sim_ds::bit_util;
static inline uint64_t ref_count(uint64_t x, unsigned n) { uint64_t c = 0; for (unsigned k = 0; k < n; k++) c += (x >> k) & 1; return c; }
static inline uint64_t ref_mask(unsigned w) { uint64_t m = 0; for (unsigned k = 0; k < w; k++) m |= 1ull << k; return m; }

ENTRY(B01_popcnt8_16, "every 8-bit and every 16-bit word") {
  uint8_t a = sym_u8(); uint16_t b = sym_u16(); OBS(bu::popcnt8(a)); OBS(bu::popcnt16(b));
  ASSERT(bu::popcnt8(a) == __builtin_popcount(a), "popcnt8"); ASSERT(bu::popcnt16(b) == __builtin_popcount(b), "popcnt16");
  ASSERT(bu::popcnt<uint8_t>(a) == __builtin_popcount(a), "popcnt<uint8_t>"); ASSERT(bu::popcnt<uint16_t>(b) == __builtin_popcount(b), "popcnt<uint16_t>");
}
ENTRY(B01_popcnt32, "every 32-bit word") {
  uint32_t x = sym_u32(); OBS(bu::popcnt32(x)); ASSERT(bu::popcnt32(x) == (uint32_t)__builtin_popcount(x), "popcnt32"); ASSERT(bu::popcnt<uint32_t>(x) == (uint32_t)__builtin_popcount(x), "popcnt<uint32_t>");
}
ENTRY(B01_popcnt64, "every 64-bit word") {
  uint64_t x = sym_u64(); OBS(bu::popcnt64(x)); ASSERT(bu::popcnt64(x) == (uint64_t)__builtin_popcountll(x), "popcnt64"); ASSERT(bu::popcnt<uint64_t>(x) == (uint64_t)__builtin_popcountll(x), "popcnt<uint64_t>");
}
ENTRY(B01_mask, "every width 0..64, every offset 0..63") {
  EXPECT("width64");
  uint64_t w = sym_range(0, 64), k = sym_below(64); uint64_t m = bu::WidthMask(w); OBS(m);
  uint64_t spec = 0; for (unsigned j = 0; j < 64; j++) spec |= (uint64_t)(j < w) << j;
  ASSERT(m == spec, "WidthMask");
  uint64_t o = 0; for (unsigned j = 0; j < 64; j++) o |= (uint64_t)(j == k) << j;
  ASSERT(bu::OffsetMask(k) == o, "OffsetMask");
  HIT(w == 64, "width64");
}
template <size_t... I> static void all_masks(std::index_sequence<I...>) {
  bool ok = ((bu::width_mask<I> == ref_mask(I)) && ...) && bu::width_mask<64> == ~0ull; ASSERT(ok, "width_mask<N>");
  bool ok2 = ((bu::offset_mask<I> == (ref_mask(I) ^ ref_mask(I + 1))) && ...); ASSERT(ok2, "offset_mask<N>");
}
ENTRY(B01_mask_templates, "width_mask<0..64>, offset_mask<0..63>") { all_masks(std::make_index_sequence<64>()); }
ENTRY(B01_cnt64, "every 64-bit word, every len 0..64") {
  EXPECT("len64");
  uint64_t x = sym_u64(); unsigned len = (unsigned)sym_pick(0, 64); uint64_t c = bu::cnt<uint64_t>(x, len); OBS(c);
  ASSERT(c == (uint64_t)__builtin_popcountll(x & ref_mask(len)), "cnt<uint64_t>"); HIT(len == 64, "len64");
}
ENTRY(B01_cnt_small, "every 8/16/32-bit word, every len up to its width") {
  uint32_t x = sym_u32(); uint16_t y = sym_u16(); uint8_t z = sym_u8(); unsigned len = (unsigned)sym_pick(0, 32);
  ASSERT(bu::cnt<uint32_t>(x, len) == (uint32_t)__builtin_popcount(x & (uint32_t)ref_mask(len)), "cnt<uint32_t>");
  if (len <= 16) ASSERT(bu::cnt<uint16_t>(y, len) == __builtin_popcount(y & (uint16_t)ref_mask(len)), "cnt<uint16_t>");
  if (len <= 8) ASSERT(bu::cnt<uint8_t>(z, len) == __builtin_popcount(z & (uint8_t)ref_mask(len)), "cnt<uint8_t>");
}

template <unsigned FW, unsigned P> static inline uint64_t fields(uint64_t x) { // one bit per field that equals P
  uint64_t r = 0; for (unsigned f = 0; (f + 1) * FW <= 64; f++) { uint64_t v = (x >> (f * FW)) & ((1u << FW) - 1); r |= (uint64_t)(v == P) << (f * FW); } return r; }
#define FIELD(name, FW, P) ENTRY(B02_##name, "every 64-bit word") { EXPECT("some"); uint64_t x = sym_u64(); uint64_t r = bu::name(x); OBS(r); ASSERT(r == (uint64_t)__builtin_popcountll(fields<FW, P>(x)), #name); HIT(r == 64 / FW, "some"); }
FIELD(popcnt11, 2, 3) FIELD(popcnt10, 2, 2) FIELD(popcnt111, 3, 7) FIELD(popcnt110, 3, 6) FIELD(popcnt101, 3, 5) FIELD(popcnt100, 3, 4)

ENTRY(B03_ctz, "every 32-bit and 64-bit word") {
  uint32_t x = sym_u32(); uint64_t y = sym_u64(); int rx = 32, ry = 64;
  for (int k = 31; k >= 0; k--) rx = (x >> k) & 1 ? k : rx; for (int k = 63; k >= 0; k--) ry = (y >> k) & 1 ? k : ry;
  OBS(bu::ctz(x)); OBS(bu::ctz(y)); ASSERT(bu::ctz(x) == rx, "ctz 32"); ASSERT(bu::ctz(y) == ry, "ctz 64");
}
ENTRY(B03_clz, "every 32-bit and 64-bit word") {
  uint32_t x = sym_u32(); uint64_t y = sym_u64(); int rx = 32, ry = 64;
  for (int k = 0; k < 32; k++) rx = (x >> k) & 1 ? 31 - k : rx; for (int k = 0; k < 64; k++) ry = (y >> k) & 1 ? 63 - k : ry;
  OBS(bu::clz(x)); OBS(bu::clz(y)); ASSERT(bu::clz(x) == rx, "clz 32"); ASSERT(bu::clz(y) == ry, "clz 64");
}

ENTRY(B04_sel, "every 64-bit word, every i in 1..popcount") {
  EXPECT("dense"); EXPECT("last");
  uint64_t x = sym_u64(); uint64_t i = sym_range(1, 64); ASSUME(i <= (uint64_t)__builtin_popcountll(x));
  uint64_t r = (uint64_t)(int64_t)bu::sel(x, i); OBS(r);
  ASSERT(r >= 1 && r <= 64, "sel range");
  ASSERT((x >> (r - 1)) & 1, "sel names a 1 bit");
  ASSERT((uint64_t)__builtin_popcountll(x & ((2ull << (r - 1)) - 1)) == i, "sel names the i-th 1 bit");
  HIT(x == ~0ull, "dense"); HIT(r == 64, "last");
}

ENTRY(B05_bextr, "every 64-bit word, every start < 64, every len with start+len <= 64") {
  EXPECT("len64"); EXPECT("len0");
  uint64_t x = sym_u64(); unsigned len = (unsigned)sym_pick(0, 64); uint64_t start = sym_range(0, len ? 64 - len : 63); uint64_t r = bu::bextr(x, start, len); OBS(r);
  uint64_t spec = 0; for (unsigned j = 0; j < len; j++) spec |= ((x >> (start + j)) & 1) << j;
  ASSERT(r == spec, "bextr"); HIT(len == 64, "len64"); HIT(len == 0, "len0");
}
template <unsigned K> static inline uint64_t ref_swap(uint64_t x) { uint64_t r = 0; for (unsigned j = 0; j < 64; j++) r |= ((x >> j) & 1) << (j ^ K); return r; }
#define SWAP(K) ENTRY(B05_swap##K, "every 64-bit word") { uint64_t x = sym_u64(); uint64_t r = bu::swap_pi##K(x); OBS(r); ASSERT(r == ref_swap<K>(x), "swap_pi" #K); }
SWAP(1) SWAP(2) SWAP(4) SWAP(8) SWAP(16) SWAP(32)
