// G01: bit-length calculations. D02: the automatic DAC layer plan.
#include "sym.h"
#include <sim_ds/calc.hpp>
namespace calc = sim_ds::calc;

ENTRY(G01_bits, "every 64-bit value") { STEPS(20000);
  uint64_t v = sym_u64(); size_t r = calc::SizeFitsInBits(v); OBS(r);
  ASSERT(r >= 1 && r <= 64, "1..64 bits");
  ASSERT(r == 64 || (v >> r) == 0, "the value fits");
  ASSERT(r == 1 || (v >> (r - 1)) != 0, "one bit less does not fit");
}
ENTRY(G01_bytes, "every 64-bit value") { STEPS(20000);
  uint64_t v = sym_u64(); size_t r = calc::SizeFitsInBytes(v); OBS(r);
  ASSERT(r >= 1 && r <= 8, "1..8 bytes");
  ASSERT(r == 8 || (v >> (8 * r)) == 0, "the value fits");
  ASSERT(r == 1 || (v >> (8 * (r - 1))) != 0, "one byte less does not fit");
}
ENTRY(G01_units, "every 64-bit value, every unit width 1..64") {
  STEPS(20000); uint64_t v = sym_u64(); size_t u = sym_pick(1, 64); size_t r = calc::SizeFitsInUnits(v, u);
  ASSERT(r >= 1, "at least one unit");
  ASSERT(r * u >= 64 || (v >> (r * u)) == 0, "the value fits");
  ASSERT(r == 1 || ((r - 1) * u < 64 && (v >> ((r - 1) * u)) != 0), "one unit less does not fit");
  if (u == 4) ASSERT(r == calc::size_fits<4>(v), "size_fits<4>");
  if (u == 16) ASSERT(r == calc::size_fits<16>(v), "size_fits<16>");
}
ENTRY(G01_list_sizes, "every 64-bit value below the capacity of 1..4 layers of widths 1..16") {
  size_t n = sym_pick(1, 4); std::vector<size_t> w; size_t sum = 0; for (size_t i = 0; i < n; i++) { w.push_back(sym_pick(1, 3)); w.back() = w.back() == 3 ? 16 : w.back(); sum += w.back(); }
  uint64_t v = sym_u64(); ASSUME(sum >= 64 || (v >> sum) == 0);
  size_t r = calc::SizeFitsAsList(v, w); OBS(r);
  size_t have = 0; for (size_t i = 0; i < n; i++) { if (i < r) have += w[i]; }
  ASSERT(r >= 1 && r <= n, "between 1 and all layers");
  ASSERT(have >= 64 || (v >> have) == 0, "the value fits in the first r layers");
  ASSERT(r == 1 || (v >> (have - w[r - 1])) != 0, "one layer less does not fit");
}
static size_t bitlen(uint64_t v) { size_t n = 1; for (size_t k = 1; k < 64; k++) n += (v >> k) != 0; return n; }
static uint64_t ofLength(size_t len) { return (1ull << (len - 1)) | (len > 1 ? sym_bits(len - 1) : 0); } // any value of that bit length (0 counts as one bit)
static const size_t LENS[] = {1, 2, 9, 32, 33, 63, 64, 8, 31};
static void freq(std::vector<uint64_t> l, int kind) { STEPS(300000);
  std::vector<size_t> r{9, 9, 9};
  if (kind == 0) calc::bit_length_frequencies(l, &r); else calc::cummulative_frequency_list(l, &r);
  size_t m = 0; for (auto x : l) { size_t b = bitlen(x); m = b > m ? b : m; }
  ASSERT(r.size() == m, "one entry per bit length up to the largest");
  size_t t = sym_below(64); if (t >= r.size()) return;
  size_t want = 0; for (auto x : l) { size_t b = bitlen(x); want += kind == 0 ? b == t + 1 : b > t; }
  OBS(r[t]);
  ASSERT(r[t] == want, kind == 0 ? "number of elements of t+1 bits" : "number of elements longer than t bits");
}
static std::vector<uint64_t> mixed(size_t n) { std::vector<uint64_t> l; for (size_t i = 0; i < n; i++) l.push_back(ofLength(LENS[sym_pick(0, TIER(6, 8))])); return l; }
ENTRY(G01_frequencies_one, "lists of one element, every 64-bit value") { freq({sym_u64()}, 0); }
ENTRY(G01_cumulative_one, "lists of one element, every 64-bit value") { freq({sym_u64()}, 1); }
ENTRY(G01_frequencies, "lists of 0..2 elements (thorough 3) of bit lengths 1, 2, 9, 32, 33, 63, 64 (thorough also 8, 31), every value of that length") { freq(mixed(sym_pick(0, TIER(2, 3))), 0); }
ENTRY(G01_cumulative, "lists of 0..2 elements (thorough 3) of bit lengths 1, 2, 9, 32, 33, 63, 64 (thorough also 8, 31), every value of that length") { freq(mixed(sym_pick(0, TIER(2, 3))), 1); }
ENTRY(G01_frequencies_small, "lists of 4 elements below 16 (byte containers as well)") {
  std::vector<uint8_t> l(4); for (auto &x : l) x = sym_bits(4);
  std::vector<uint32_t> f, c; calc::bit_length_frequencies(l, &f); calc::cummulative_frequency_list(l, &c);
  ASSERT(f.size() == c.size() && f.size() <= 4, "one entry per bit length");
  for (size_t t = 0; t < f.size(); t++) { size_t a = 0, b = 0; for (auto x : l) { size_t k = bitlen(x); a += k == t + 1; b += k > t; } ASSERT(f[t] == a, "frequency"); ASSERT(c[t] == b, "cumulative frequency"); }
}

// ---- D02. A list given by its run lengths: count[k] elements of (symbolic) value[k].
struct RunList {
  std::vector<uint64_t> val; std::vector<size_t> count;
  size_t size() const { size_t n = 0; for (auto c : count) n += c; return n; }
  bool empty() const { return size() == 0; }
  uint64_t operator[](size_t i) const { size_t k = 0; while (i >= count[k]) i -= count[k++]; return val[k]; }
};
template <class L> static void plan(const L &l, uint64_t all, size_t maxLevels, bool dflt) {
  std::vector<size_t> w{7};
  if (dflt) calc::split_positions_optimized_for_dac(l, &w); else calc::split_positions_optimized_for_dac(l, &w, maxLevels);
  size_t sum = 0; bool pos = true; for (auto x : w) { sum += x; pos = pos && x > 0; } OBS(w.size()); OBS(sum);
  ASSERT(w.size() >= 1, "at least one layer");
  ASSERT(pos, "every layer is at least one bit wide");
  ASSERT(sum == bitlen(all), "the layers cover exactly the bits of the largest element");
  ASSERT(w.size() <= maxLevels, "no more layers than allowed");
  HIT(w.size() > 1, "several layers"); HIT(w.size() == maxLevels, "as many as allowed");
}
ENTRY(D02_one, "lists of one arbitrary 64-bit element, default maximum") { uint64_t x = sym_u64(); plan(std::vector<uint64_t>{x}, x, 8, true); }
ENTRY(D02_mixed, "lists of 1..2 elements (thorough 3) of bit lengths 1, 2, 9, 32, 33, 63, 64, every value of that length, default maximum") {
  auto l = mixed(sym_pick(1, TIER(2, 3))); uint64_t all = 0; for (auto x : l) all |= x; plan(l, all, 8, true); }
ENTRY(D02_small, "lists of 1..4 elements below 32 (thorough 6 below 64), maximum 1..3") {
  size_t n = sym_pick(1, TIER(4, 6)); std::vector<uint8_t> l(n); uint64_t all = 0; for (auto &x : l) { x = sym_bits(TIER(5, 6)); all |= x; }
  plan(l, all, sym_pick(1, 3), false);
}
ENTRY(D02_runs, "3 runs of elements with bit lengths out of 1, 8, 9, 33, 64 and run lengths out of 1, 12, 150, maximum 1, 2, 3 or 8") {
  EXPECT("several layers"); EXPECT("as many as allowed");
  static const size_t len[] = {1, 8, 9, 33, 64}, cnt[] = {1, 12, 150}; RunList l; uint64_t all = 0;
  for (int k = 0; k < 3; k++) { l.val.push_back(ofLength(len[sym_pick(0, 4)])); l.count.push_back(cnt[sym_pick(0, TIER(1, 2))]); all |= l.val.back(); }
  size_t m = sym_pick(0, 3); m = m == 0 ? 8 : m; plan(l, all, m, false);
}
ENTRY(D02_deep, "9 runs with bit lengths 7, 14, .. 63 and geometrically falling run lengths (about 15000 elements), where more than 8 layers would pay; maximum 8, 5 or the default; every value of those lengths") {
  EXPECT("as many as allowed");
  RunList l; uint64_t all = 0; size_t m = sym_pick(0, 2);
  for (int k = 0; k < 9; k++) { l.val.push_back(ofLength(7 * (k + 1))); l.count.push_back(30u << (8 - k)); all |= l.val.back(); }
  std::vector<size_t> w; calc::split_positions_optimized_for_dac(l, &w, 64); EXPECT("more than 8 would pay"); HIT(w.size() > 8, "more than 8 would pay"); OBS(w.size());
  plan(l, all, m == 1 ? 5 : 8, m == 2);
}

// ---- long lists (fixed contents, one symbolic element); D03: the plan is the cheapest one
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
static std::vector<uint64_t> longList(size_t n, size_t kind) { std::vector<uint64_t> l(n); for (size_t i = 0; i < n; i++) l[i] = kind == 0 ? mix(i) : kind == 1 ? mix(i) >> mix(i + 5) % 64 : kind == 2 ? 1 + mix(i) % 3 : i % 50 == 7 ? mix(i) >> 20 : i % 11 == 3 ? mix(i) >> 47 : i & 15; return l; }
static const size_t NL[] = {255, 257, 600, 4097};
ENTRY(G01_long, "lists of 255, 257 and 600 (thorough 4097) fixed elements of 4 distributions and one element of bit length 1, 9, 33 or 64") { STEPS(60000000);
  static const size_t B[] = {1, 9, 33, 64}; size_t n = NL[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 3); auto l = longList(n, kind); l[n / 2] = ofLength(B[sym_pick(0, 3)]); std::vector<size_t> f, c; calc::bit_length_frequencies(l, &f); calc::cummulative_frequency_list(l, &c); size_t m = 0; std::vector<size_t> w(65); for (auto x : l) { size_t b = bitlen(x); m = b > m ? b : m; for (size_t k = 1; k <= 64; k++) w[k] += b == k; }
  ASSERT(f.size() == m && c.size() == m, "one entry per bit length up to the largest"); size_t sum = 0; bool ok = true, cu = true; for (size_t t = m; t-- > 0;) { sum += w[t + 1]; if (t < f.size()) ok = ok & (f[t] == w[t + 1]); if (t < c.size()) cu = cu & (c[t] == sum); } ASSERT(ok, "number of elements of t+1 bits"); ASSERT(cu, "number of elements longer than t bits");
}
ENTRY(D02_long, "lists of 255, 257 and 600 (thorough 4097) fixed elements of 4 distributions and one element of bit length 1, 9, 33 or 64, maximum 1, 2, 3, 5, 8") { STEPS(60000000); EXPECT("several layers");
  static const size_t B[] = {1, 9, 33, 64}, M[] = {1, 2, 3, 5, 8}; size_t n = NL[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 3); auto l = longList(n, kind); l[n / 2] = ofLength(B[sym_pick(0, 3)]); uint64_t all = 0; for (auto x : l) all |= x; size_t m = M[sym_pick(0, 4)]; plan(l, all, m, m == 8); }
// estimated size of a plan: every layer stores its bits for the elements that reach it, every layer but the last a rank vector over those elements
static size_t rankBits(size_t n) { return n + n / 4 + 191; }
static size_t estimate(const std::vector<size_t> &w, const std::vector<size_t> &longer) { size_t at = 0, s = 0; for (size_t k = 0; k < w.size(); k++) { s += longer[at] * w[k]; if (k + 1 < w.size()) s += rankBits(longer[at]); at += w[k]; } return s; }
static size_t cheapest(const std::vector<size_t> &longer) { size_t m = longer.size(); std::vector<size_t> best(m + 1, 0); for (size_t t = m; t-- > 0;) { best[t] = longer[t] * (m - t); for (size_t e = t + 1; e < m; e++) { size_t s = longer[t] * (e - t) + rankBits(longer[t]) + best[e]; if (s < best[t]) best[t] = s; } } return best[0]; }
template <class L> static void optimal(const L &l, size_t n) { std::vector<size_t> w; calc::split_positions_optimized_for_dac(l, &w, 64); std::vector<size_t> longer; for (size_t i = 0; i < n; i++) { size_t b = bitlen(l[i]); if (longer.size() < b) longer.resize(b); for (size_t t = 0; t < b; t++) longer[t]++; }
  size_t sum = 0; for (auto x : w) sum += x; ASSERT(sum == longer.size(), "the layers cover exactly the bits of the largest element"); if (sum != longer.size()) return; size_t have = estimate(w, longer), best = cheapest(longer); OBS(have); ASSERT(have == best, "no other split into layers has a smaller estimated size"); HIT(w.size() > 1, "several layers"); HIT(w.size() == 1, "one layer"); }
ENTRY(D03_short, "lists of 1..2 (thorough 3) elements of bit lengths 1, 2, 9, 32, 33, 63, 64, every value of that length") { EXPECT("one layer"); STEPS(2000000); auto l = mixed(sym_pick(1, TIER(2, 3))); optimal(l, l.size()); }
ENTRY(D03_one, "lists of one element, every 64-bit value") { MERGE(0); EXPECT("one layer"); std::vector<uint64_t> l{sym_u64()}; optimal(l, 1); }
ENTRY(D03_small, "lists of 1..4 (thorough 6) elements below 16") { MERGE(0); EXPECT("one layer"); std::vector<uint8_t> l(sym_pick(1, TIER(4, 6))); for (auto &x : l) x = sym_bits(4); optimal(l, l.size()); }
ENTRY(D03_runs, "3 runs of elements with bit lengths out of 1, 8, 9, 33, 64 and run lengths out of 1 and 150 (thorough also 12 and 1000), every value of those lengths") { EXPECT("several layers"); EXPECT("one layer"); STEPS(60000000);
  static const size_t len[] = {1, 8, 9, 33, 64}, cnt[] = {1, 150, 12, 1000}; std::vector<uint64_t> l; for (int k = 0; k < 3; k++) { uint64_t v = ofLength(len[sym_pick(0, 4)]); l.insert(l.end(), cnt[sym_pick(0, TIER(1, 3))], v); } optimal(l, l.size()); }
ENTRY(D03_long, "lists of 255, 257 and 600 (thorough 4097) fixed elements of 4 distributions and one element of bit length 1, 9, 33 or 64") { EXPECT("several layers"); STEPS(60000000); static const size_t B[] = {1, 9, 33, 64}; size_t n = NL[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 3); auto l = longList(n, kind); l[n / 2] = ofLength(B[sym_pick(0, 3)]); optimal(l, n); }
// two values, so that one count passes 65536
static std::vector<uint8_t> manyList(size_t n, uint8_t a, uint8_t b) { std::vector<uint8_t> l(n, a); l[n / 2] = b; return l; }
#define NM "lists of 65535..65537, 70000 (thorough also 300000) bytes, all of one bit length but one, every value of those lengths"
ENTRY(G01_many, NM) { STEPS(200000000); static const size_t N[] = {65535, 65536, 65537, 70000, 300000}; size_t n = N[sym_pick(0, TIER(3, 4))], p = sym_pick(0, 1), a = p ? 1 : 3, b = p ? 3 : 1; uint8_t x = (uint8_t)ofLength(a), y = (uint8_t)ofLength(b); auto l = manyList(n, x, y); std::vector<size_t> f, c; calc::bit_length_frequencies(l, &f); calc::cummulative_frequency_list(l, &c);
  ASSERT(f.size() == 3 && c.size() == 3, "one entry per bit length up to the largest"); ASSERT(f[a - 1] == n - 1 && f[1] == 0 && f[b - 1] == 1, "number of elements of t+1 bits"); ASSERT(c[0] == n && c[1] == (p ? 1 : n - 1) && c[2] == (p ? 1 : n - 1), "number of elements longer than t bits"); }
ENTRY(D03_many, "lists of 65536, 70000 (thorough also 300000) bytes, all of one bit length but one, every value of those lengths") { STEPS(400000000); static const size_t N[] = {65536, 70000, 300000}; size_t n = N[sym_pick(0, TIER(1, 2))], p = sym_pick(0, 1), a = p ? 1 : 8, b = p ? 8 : 1; uint8_t x = (uint8_t)ofLength(a), y = (uint8_t)ofLength(b); auto l = manyList(n, x, y); optimal(l, n); }
