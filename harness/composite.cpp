// W01: WaveletTree. D01: DacVector.
#include "sym.h"
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/DacVector.hpp>
using sim_ds::WaveletTree; using sim_ds::DacVector;

// ---- W01
template <class T> struct Seq { std::vector<T> v; unsigned h; };
// n symbols, the largest of bit length h
template <class T> static std::vector<T> symbols(size_t n, unsigned h) {
  std::vector<T> v(n); uint64_t all = 0; for (auto &x : v) { x = (T)sym_bits(h); all |= x; }
  ASSUME(h == 1 || (all >> (h - 1)) != 0); return v;
}
template <class T> static void queries(const std::vector<T> &v) {
  WaveletTree wt(v);
  ASSERT(wt.size() == v.size(), "the tree has the size of its source");
  for (size_t i = 0; i < v.size(); i++) {
    size_t want = 0; for (size_t k = 0; k < i; k++) want += v[k] == v[i];
    ASSERT(wt[i] == v[i], "access returns the source symbol");
    ASSERT(wt.rank(i) == want, "rank(i) counts the earlier occurrences of the symbol at i");
    auto ar = wt.AccessAndRank(i);
    ASSERT(ar.first == v[i] && ar.second == want, "AccessAndRank returns both");
  }
}
template <class T> static void ranksOf(const std::vector<T> &v, unsigned h) {
  WaveletTree wt(v);
  size_t i = sym_pick(0, v.size()); uint8_t c = (uint8_t)sym_bits(h); uint8_t mx = 0; for (auto x : v) mx = x > mx ? x : mx; ASSUME(c <= mx);
  size_t want = 0; for (size_t k = 0; k < i; k++) want += v[k] == c;
  ASSERT(wt.rank(c, i) == want, "rank(c, i) counts the occurrences of c before i");
  HIT(want >= 2, "several"); HIT(want == 0 && i == v.size(), "none");
}
#define WB1 "every sequence of 1..16 (thorough 1..32) 1-bit symbols"
#define WB2 "every sequence of 1..9 (thorough 1..14) 2-bit symbols"
#define WB3 "every sequence of 1..6 (thorough 1..8) 3-bit symbols"
#define WB8 "every single symbol of 4..8 bits, every 2 symbols of 4..6 (thorough 4..8) bits"
static unsigned tall(size_t n) { return sym_pick(4, n == 1 ? 8 : TIER(6, 8)); }
ENTRY(W01_empty, "the empty sequence of 8- and 32-bit symbols") { WaveletTree a(std::vector<uint8_t>{}), b(std::vector<uint32_t>{}); size_t x = a.size(), y = b.size(), r = a.rank(0, 0); OBS(x); OBS(y); ASSERT(x == 0 && y == 0, "size"); ASSERT(r == 0, "number of occurrences"); }
ENTRY(W01_access1, WB1 ", every index") { queries(symbols<uint32_t>(sym_pick(1, TIER(16, 32)), 1)); }
ENTRY(W01_access2, WB2 ", every index") { queries(symbols<uint32_t>(sym_pick(1, TIER(9, 14)), 2)); }
ENTRY(W01_access3, WB3 ", every index") { queries(symbols<uint8_t>(sym_pick(1, TIER(6, 8)), 3)); }
ENTRY(W01_access8, WB8 ", every index") { size_t n = sym_pick(1, 2); queries(symbols<uint8_t>(n, tall(n))); }
ENTRY(W01_rank1, WB1 ", every symbol and prefix") { EXPECT("several"); ranksOf(symbols<uint8_t>(sym_pick(1, TIER(16, 32)), 1), 1); }
ENTRY(W01_rank2, WB2 ", every symbol and prefix") { EXPECT("several"); EXPECT("none"); ranksOf(symbols<uint8_t>(sym_pick(1, TIER(9, 14)), 2), 2); }
ENTRY(W01_rank3, WB3 ", every symbol and prefix") { EXPECT("several"); ranksOf(symbols<uint32_t>(sym_pick(1, TIER(6, 8)), 3), 3); }
ENTRY(W01_rank8, WB8 ", every symbol and prefix") { size_t n = sym_pick(1, 2); unsigned h = tall(n); ranksOf(symbols<uint32_t>(n, h), h); }
// long sequences: fixed symbols except a window; queries inside and around it
template <unsigned H> static void longCase(bool access) {
  static const size_t N[] = {64, 65, 129, 513, 576, 1030}; size_t n = N[sym_pick(0, TIER(4, 5))]; unsigned pattern = sym_pick(0, 2);
  std::vector<uint8_t> v(n); for (size_t i = 0; i < n; i++) v[i] = pattern == 0 ? 0 : pattern == 1 ? (1u << H) - 1 : (i * 7 + i / 5) % (1u << H);
  v[0] = (1u << H) - 1;
  size_t from = n == 129 ? 62 : n == 1030 ? 510 : n - 4; for (size_t i = from; i < from + 4; i++) if (H < 3 || i % 2) v[i] = sym_bits(H);
  WaveletTree wt(v);
  if (access) for (size_t i = from - 1; i < n && i < from + 6; i++) { size_t want = 0; for (size_t k = 0; k < i; k++) want += v[k] == v[i]; ASSERT(wt[i] == v[i], "access returns the source symbol"); ASSERT(wt.rank(i) == want, "rank(i) counts the earlier occurrences of the symbol at i"); auto ar = wt.AccessAndRank(i); ASSERT(ar.first == v[i] && ar.second == want, "AccessAndRank returns both"); }
  else { size_t i = from + sym_pick(0, 4); for (unsigned c = 0; c < (1u << H); c++) { size_t want = 0; for (size_t k = 0; k < i; k++) want += v[k] == c; ASSERT(wt.rank(c, i) == want, "rank(c, i) counts the occurrences of c before i"); } }
}
#define WL "sequences of 64, 65, 129, 513 and 576 (thorough also 1030) symbols with 4 symbolic ones at a word or block end"
ENTRY(W01_long_access1, "1-bit symbols, " WL) { longCase<1>(true); }
ENTRY(W01_long_access2, "2-bit symbols, " WL) { longCase<2>(true); }
ENTRY(W01_long_rank1, "1-bit symbols, " WL) { longCase<1>(false); }
ENTRY(W01_long_rank2, "2-bit symbols, " WL) { longCase<2>(false); }
ENTRY(W01_long_rank3, "3-bit symbols, as above with 2 symbolic symbols, " WL) { longCase<3>(false); }

// very long sequences: fixed symbols, one symbolic; access and ranks on a grid
template <class T, unsigned H> static void veryLong() { STEPS(100000000);
  static const size_t N[] = {300, 1100, 4200, 70000}; size_t n = N[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 2); std::vector<T> v(n); for (size_t i = 0; i < n; i++) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; v[i] = kind == 0 ? (x >> 40) % (1u << H) : kind == 1 ? (i % 600 == 599 ? (1u << H) - 1 : 1) : i * (1u << H) / n; } v[n - 1] = (1u << H) - 1;
  size_t at = n / 2 + 1; v[at] = (T)((v[at] & ~1u) | sym_bits(1)); WaveletTree wt(v); ASSERT(wt.size() == n, "the tree has the size of its source");
  size_t c[1u << H] = {}; bool ok = true, rk = true, rc = true; size_t step = n / 40; for (size_t i = 0; i < n; i++) { if (i != at && (i % step == 0 || i + 4 > n || i == at + 1)) { size_t want = c[v[i]]; ok = ok & (wt[i] == v[i]); rk = rk & (wt.rank(i) == want); auto a = wt.AccessAndRank(i); ok = ok & (a.first == v[i]); rk = rk & (a.second == want); } if (i % (n / 12) == 5) for (unsigned t = 0; t < (1u << H); t += H > 3 ? 13 : 1) rc = rc & (wt.rank((uint8_t)t, i) == c[t]); if (i == at) for (unsigned t = 0; t < (1u << H); t++) c[t] += v[i] == t; else c[v[i]]++; }
  ASSERT(ok, "access returns the source symbol"); ASSERT(rk, "rank(i) counts the earlier occurrences of the symbol at i"); ASSERT(rc, "rank(c, i) counts the occurrences of c before i"); ASSERT(wt[at] == v[at], "access of the symbolic symbol"); for (unsigned t = 0; t < (1u << H); t += H > 3 ? 17 : 1) ASSERT(wt.rank((uint8_t)t, n) == c[t], "rank(c, size)");
}
#define WV "300..4200 (thorough 70000) symbols in 3 fillings, one symbol with a symbolic lowest bit; a grid of positions"
ENTRY(W01_very_long1, "1-bit, " WV) { veryLong<uint8_t, 1>(); }
ENTRY(W01_very_long4, "4-bit, " WV) { veryLong<uint32_t, 4>(); }
ENTRY(W01_very_long8, "8-bit, " WV) { veryLong<uint8_t, 8>(); }

// ---- D01
static size_t bitlen(uint64_t v) { size_t n = 1; for (size_t k = 1; k < 64; k++) n += (v >> k) != 0; return n; }
static uint64_t ofLength(size_t len) { return (1ull << (len - 1)) | (len > 1 ? sym_bits(len - 1) : 0); } // any value of that bit length; length 1 is 1
template <class T> static void elements(const DacVector &d, const std::vector<T> &v) {
  ASSERT(d.size() == v.size() && d.empty() == v.empty(), "size of the source");
  size_t k = 0; auto it = d.begin();
  for (; it != d.end(); ++it, k++) { ASSERT(k < v.size(), "iteration ends with the source"); if (k >= v.size()) return; ASSERT(*it == v[k], "iteration yields the source"); }
  ASSERT(k == v.size(), "iteration covers the source");
  for (size_t i = 0; i < v.size(); i++) { ASSERT(d[i] == v[i], "d[i] is the source element"); ASSERT(d.at(i) == v[i], "d.at(i) is the source element"); ASSERT(d.begin()[i] == v[i] && *(d.begin() + i) == v[i] && *(d.end() - (long long)(v.size() - i)) == v[i], "iterator arithmetic"); }
  ASSERT(d.end() - d.begin() == (long long)v.size(), "iterator distance");
  if (!v.empty()) { ASSERT(d.front() == v.front(), "front"); ASSERT(d.back() == v.back(), "back"); }
  bool threw = false; try { d.at(v.size()); } catch (const std::out_of_range &) { threw = true; } ASSERT(threw, "at(size()) throws");
}
template <class T> static void depths(const DacVector &d, const std::vector<T> &v, const std::vector<size_t> &w) {
  ASSERT(d.num_layers() == w.size(), "number of layers");
  for (size_t i = 0; i < v.size(); i++) { size_t have = 0, need = 0; for (size_t k = 0; k < w.size(); k++) { have += w[k]; if (have < 64 && ((uint64_t)v[i] >> have) != 0) need = k + 1; } ASSERT(d.depth(i) == need, "depth(i) is the number of extra layers of element i"); }
}
template <class T> static void automatic(const std::vector<T> &v) { STEPS(3000000); DacVector d(v); elements(d, v); std::vector<size_t> w; sim_ds::calc::split_positions_optimized_for_dac(v, &w); depths(d, v, w); HIT(d.num_layers() > 1, "several layers"); }
static std::vector<uint64_t> mixed(size_t n) { static const size_t L[] = {1, 64, 33, 9, 2, 32, 63, 8}; std::vector<uint64_t> v; for (size_t i = 0; i < n; i++) { size_t l = sym_pick(0, TIER(5, 7)); v.push_back(ofLength(L[l])); } return v; }
ENTRY(D01_empty, "the empty vector, default construction") {
  std::vector<uint64_t> e; DacVector d(e); ASSERT(d.size() == 0 && d.empty() && d.begin() == d.end(), "an empty source gives an empty DacVector");
  bool threw = false; try { d.at(0); } catch (const std::out_of_range &) { threw = true; } ASSERT(threw, "at(0) throws");
  DacVector w(e, std::vector<size_t>{8, 8}); ASSERT(w.size() == 0 && w.empty() && w.begin() == w.end(), "an empty source gives an empty DacVector");
  DacVector c; ASSERT(c.size() == 0 && c.empty(), "a default-constructed DacVector is empty"); DacVector x(std::move(d)); ASSERT(x.empty(), "moved");
  DacVector y; y = w; ASSERT(y.empty(), "assigned"); OBS(w.size_in_bytes() > 0);
}
ENTRY(D01_one, "every single 64-bit value") { automatic(std::vector<uint64_t>{sym_u64()}); }
ENTRY(D01_mixed, "1..3 elements of bit lengths 1, 2, 9, 32, 33, 64 (thorough 4 elements, also 8, 63), every value of that length") { automatic(mixed(sym_pick(1, TIER(3, 4)))); }
ENTRY(D01_small, "every vector of 1..5 (thorough 7) elements below 16") { std::vector<uint32_t> v(sym_pick(1, TIER(5, 7))); for (auto &x : v) x = sym_bits(4); automatic(v); }
ENTRY(D01_bytes, "every vector of 1..2 (thorough 3) bytes") { std::vector<uint8_t> v(sym_pick(1, TIER(2, 3))); for (auto &x : v) x = sym_u8(); automatic(v); }
// many equal elements, so that several layers pay; a few symbolic ones at the ends and around position 64
ENTRY(D01_long, "70 or 130 elements, 4 of them symbolic (0..3 bits, 20 bits, 64 bits), the others 1") {
  EXPECT("several layers"); size_t n = sym_pick(0, 1) ? 130 : 70; std::vector<uint64_t> v(n, 1);
  static const size_t L[] = {2, 20, 64}; v[0] = ofLength(L[sym_pick(0, 2)]); v[63] = ofLength(L[sym_pick(0, 2)]); v[64] = sym_bits(2); v[n - 1] = ofLength(L[sym_pick(0, 2)]);
  automatic(v);
}
static void explicitLayers(size_t n) {
  static const std::vector<size_t> W[] = {{8, 8, 8, 8}, {1, 1, 1}, {64}, {4, 60}, {32, 32}, {3, 5, 7, 11, 13}, {63, 1}, {1, 63}, {8, 8, 8, 8, 8, 8, 8, 8}, {64, 8}, {40, 40}, {16}};
  size_t k = sym_pick(0, 11); const auto &w = W[k]; size_t sum = 0; for (auto x : w) sum += x; if (sum > 64) sum = 64;
  std::vector<uint64_t> v(n);
  for (size_t i = 0; i < n; i++) { // the number of layers an element occupies is chosen, its value is any that occupies so many
    size_t top = sym_pick(0, w.size() > 3 ? 3 : w.size() - 1); if (top == 3) top = w.size() - 1; size_t below = 0; for (size_t t = 0; t < top; t++) below += w[t];
    size_t most = below + w[top] > 64 ? 64 : below + w[top]; if (below >= 64) { below = 0; most = 1; }
    if (n == 1) { v[i] = sym_bits(most); if (top) ASSUME((v[i] >> below) != 0); } else v[i] = sym_pick(0, 1) ? ofLength(most) : ofLength(below + 1);
  }
  DacVector d(v, w); elements(d, v); depths(d, v, w);
}
ENTRY(D01_layers1, "one element, 12 explicit layouts of total width 3..80, every value that fits, elements occupying 1, 2, 3 or all layers") { explicitLayers(1); }
ENTRY(D01_layers2, "two elements, 12 explicit layouts of total width 3..80, elements occupying 1, 2, 3 or all layers, of the smallest or largest bit length that does, every value of that length") { explicitLayers(2); }
ENTRY(D01_layers3, "three elements, otherwise as for two") { explicitLayers(3); }
static void manyElements(bool layers) { STEPS(200000000); EXPECT("several layers");
  static const size_t N[] = {300, 1100, 4200, 70000}; size_t n = N[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 2); std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; v[i] = kind == 0 ? x >> (40 + i % 24) : kind == 1 ? (i % 70 == 69 ? x : i & 1) : (x & 0xffff) | (i == 5 ? 1ull << 63 : 0); }
  size_t at = n * 3 / 4; v[at] = ofLength(13); static const std::vector<size_t> W[] = {{4, 4, 8, 48}, {1, 7, 24, 32}}; DacVector d = layers ? DacVector(v, W[sym_pick(0, 1)]) : DacVector(v); ASSERT(d.size() == n, "size of the source"); HIT(d.num_layers() > 1, "several layers");
  bool ok = true; for (size_t i = 0; i < n; i += i + 9 > n || i < 9 || (i + 3 > at && i < at + 3) ? 1 : n > 2000 ? 11 : 3) ok = ok & (d[i] == v[i]); ASSERT(ok, "d[i] is the source element"); if (n < 2000) { size_t k = 0; bool it = true; for (auto x : d) { it = it & (k < n && x == v[k]); k++; } ASSERT(it && k == n, "iteration yields the source"); }
}
#define DM "300..4200 (thorough 70000) elements in 3 distributions, one of 13 bits symbolic"
ENTRY(D01_many_auto, DM) { manyElements(false); }
ENTRY(D01_many_layers, DM ", 2 explicit layouts of 4 layers") { manyElements(true); }

// ---- D04: iterators of DacVector
template <class I> static void iterators(const DacVector &d, const I *) {
  long long n = (long long)d.size(), a = sym_pick(0, n), b = sym_pick(0, n); auto x = d.begin() + a, y = d.end() - (n - b);
  ASSERT((x == y) == (a == b) && (x != y) == (a != b), "== and != compare positions"); ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "the order is the order of the positions");
  ASSERT(y - x == b - a && x - d.begin() == a && d.end() - x == n - a, "difference is the distance"); auto z = x; z += b - a; ASSERT(z == y, "+="); z -= b - a; ASSERT(z == x, "-="); ASSERT((b - a) + x == y && x + (b - a) == y && y - (b - a) == x, "+ and - with a distance");
  if (a < n) { ASSERT(*x == d[a] && x[0] == d[a], "* is the element"); auto w = x; auto o = w++; ASSERT(o == x && w - x == 1, "postfix ++ returns the old position"); auto &r = ++x; ASSERT(&r == &x && x == w, "prefix ++"); auto p = w--; ASSERT(p == x && x - w == 1, "postfix -- returns the old position"); --x; ASSERT(x == w && *x == d[a], "prefix --"); }
  if (b < n) ASSERT(x[(size_t)(b - a)] == d[b], "it[k] is the element k further");
  size_t k = 0; bool in = true; for (auto v : d) { in = in & (k < d.size()) && v == d[k]; k++; } ASSERT(in && k == d.size(), "a range-for visits every element in order");
}
ENTRY(D04_iterators, "vectors of 0..4 elements of bit lengths 1, 9, 64, every value of that length, every pair of positions") { static const size_t L[] = {9, 1, 64}; std::vector<uint64_t> v(sym_pick(0, 4)); for (size_t i = 0; i < v.size(); i++) v[i] = ofLength(L[(i + v.size()) % 3]); STEPS(3000000); DacVector d(v); iterators(d, (int *)0); bool same = true; for (size_t i = 0; i < v.size(); i++) same = same & (*(d.begin() + i) == v[i]); ASSERT(same, "iteration yields the source"); }
ENTRY(D04_layers, "vectors of 3 elements in layers of 4 and 60 bits, one of any value, every pair of positions") { std::vector<uint64_t> v{5, sym_u64(), 16}; STEPS(3000000); DacVector d(v, std::vector<size_t>{4, 60}); iterators(d, (int *)0); bool same = true; size_t i = 0; for (auto it = d.begin(); it != d.end(); it++, i++) same = same & (*it == v[i]); ASSERT(same && i == 3, "iteration yields the source"); }
