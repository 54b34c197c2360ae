// M01: MultipleVector. U01: MultiBitVector.
#include "sym.h"
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
using sim_ds::MultipleVector; using sim_ds::MultiBitVector; using sim_ds::id_type;

static uint64_t maskOf(size_t bytes) { return bytes >= 8 ? ~0ull : (1ull << (8 * bytes)) - 1; }
// three fields; the reference is a table of plain integers
struct Ref { std::array<size_t, 3> w; std::vector<std::array<uint64_t, 3>> v; };
static uint64_t val(const Ref &r, size_t f) { return sym_bits(8 * r.w[f]); }
KEEP static void check(MultipleVector &m, const Ref &r) {
  ASSERT(m.size() == r.v.size(), "number of blocks");
  ASSERT(m.block_size() == r.w[0] + r.w[1] + r.w[2], "block size");
  const MultipleVector &c = m;
  for (size_t i = 0; i < r.v.size(); i++) {
    ASSERT(m.nested_element<0>(i) == r.v[i][0] && m.nested_element<1>(i) == r.v[i][1] && m.nested_element<2>(i) == r.v[i][2], "nested_element returns the value written");
    auto b = m.block(i); auto cb = c.block(i);
    ASSERT(b.get<0>() == r.v[i][0] && b.get<1>() == r.v[i][1] && b.get<2>() == r.v[i][2], "block().get returns the value written");
    ASSERT(cb.get<0>() == r.v[i][0] && cb.get<1>() == r.v[i][1] && cb.get<2>() == r.v[i][2], "const block().get returns the value written");
    for (size_t f = 0; f < 3; f++) ASSERT(b.get_at(f) == r.v[i][f], "block().get_at returns the value written");
  }
}
static MultipleVector make(const Ref &r) { 
  if (sym_pick(0, 1)) return MultipleVector({r.w[0], r.w[1], r.w[2]});
  MultipleVector m; m.set_element_sizes(std::vector<size_t>{r.w[0], r.w[1], r.w[2]}); return m;
}
static Ref widths() { Ref r; static const size_t W[] = {1, 2, 8, 4, 3, 5, 6, 7}; for (auto &x : r.w) x = W[sym_pick(0, TIER(3, 7))]; return r; }
static std::array<uint64_t, 3> row(const Ref &r) { std::array<uint64_t, 3> a; for (size_t f = 0; f < 3; f++) a[f] = val(r, f); return a; }
static void fill(MultipleVector &m, Ref &r, size_t n) { for (size_t i = 0; i < n; i++) { auto a = row(r); m.push_back({a[0], a[1], a[2]}); r.v.push_back(a); } }
template <int Id> static void setField(MultipleVector &m, Ref &r, size_t i, int how) {
  uint64_t x = val(r, Id); uint64_t got = 0;
  switch (how) {
  case 0: got = m.set_nested_element<Id>(i, x); break;
  case 1: got = m.block(i).set<Id>(x); break;
  case 2: got = m.block(i).set_at<uint64_t>(Id, x); break;
  case 3: got = m.block(i).restricted_set<Id, uint64_t>(x); break;
  case 4: { auto b = m.block(i); b = {Id == 0 ? x : r.v[i][0], Id == 1 ? x : r.v[i][1], Id == 2 ? x : r.v[i][2]}; got = x; break; }
  }
  ASSERT(got == x, "a setter returns the value set"); r.v[i][Id] = x;
}
static void setAny(int how) {
  Ref r = widths(); MultipleVector m = make(r); fill(m, r, 3); check(m, r);
  size_t i = sym_pick(0, 2);
  switch (sym_pick(0, 2)) { case 0: setField<0>(m, r, i, how); break; case 1: setField<1>(m, r, i, how); break; case 2: setField<2>(m, r, i, how); break; }
  check(m, r);
}
#define B "3 fields of 1, 2, 4 or 8 bytes each (thorough 1..8), 3 blocks, every contents, any block and field, every fitting value"
ENTRY(M01_set_nested, "set_nested_element: " B) { setAny(0); }
ENTRY(M01_block_set, "block().set: " B) { setAny(1); }
ENTRY(M01_block_set_at, "block().set_at: " B) { setAny(2); }
ENTRY(M01_restricted_set, "block().restricted_set: " B) { setAny(3); }
ENTRY(M01_block_assign, "block() = {...}: " B) { setAny(4); }
template <class T> static void narrow() { // set and get through a type narrower than the field
  Ref r = widths(); MultipleVector m = make(r); fill(m, r, 2); size_t i = sym_pick(0, 1); T x = (T)sym_bits(8 * sizeof(T)); 
  if (sizeof(T) > r.w[1]) ASSUME((uint64_t)x <= maskOf(r.w[1]));
  if (sym_pick(0, 1)) { m.block(i).set_at(1, x); r.v[i][1] = x; check(m, r); }
  else { m.block(i).template restricted_set<1, T>(x); uint64_t keep = r.w[1] > sizeof(T) ? r.v[i][1] & ~maskOf(sizeof(T)) : 0; r.v[i][1] = keep | x; check(m, r); }
  const MultipleVector &c = m;
  ASSERT((m.block(i).template restricted_get<1, T>()) == x, "restricted_get of a narrow type returns the value set");
  ASSERT((c.block(i).template restricted_get<1, T>()) == x, "const restricted_get of a narrow type returns the value set");
}
ENTRY(M01_narrow8, "set_at, restricted_set and restricted_get with uint8_t: " B) { narrow<uint8_t>(); }
ENTRY(M01_narrow16, "set_at, restricted_set and restricted_get with uint16_t: " B) { narrow<uint16_t>(); }
ENTRY(M01_narrow32, "set_at, restricted_set and restricted_get with uint32_t: " B) { narrow<uint32_t>(); }
ENTRY(M01_history, "every history of 3 operations (push_back, resize up to 4 with values, resize down, emplace_back then set, copy, set) from empty; 8 field layouts (thorough: every layout of 1..8 bytes each)") {
  static const size_t L[8][3] = {{1, 1, 1}, {4, 1, 2}, {8, 8, 8}, {2, 8, 1}, {1, 4, 8}, {3, 5, 7}, {1, 8, 2}, {8, 1, 1}};
  Ref r; if (TIER(1, 0)) { size_t l = sym_pick(0, 7); for (size_t f = 0; f < 3; f++) r.w[f] = L[l][f]; } else r = widths(); MultipleVector m = make(r);
  for (int k = 0; k < 3; k++) switch (sym_pick(0, 5)) {
  case 0: fill(m, r, 1); break;
  case 1: { size_t n = sym_pick(0, 4); auto a = row(r); m.resize(n, {a[0], a[1], a[2]}); r.v.resize(n, a); break; }
  case 2: { if (r.v.empty()) return; size_t n = sym_pick(0, r.v.size() - 1); m.resize(n); r.v.resize(n); break; }
  case 3: { auto a = row(r); m.emplace_back(); r.v.push_back(a); auto b = m.block(r.v.size() - 1); b.set<1>(a[1]); b.set<0>(a[0]); b.set<2>(a[2]); break; }
  case 4: { MultipleVector c(m); if (!r.v.empty()) c.set_nested_element<0>(0, 0); m.reserve(5); MultipleVector d(std::move(m)); m = d; break; }
  case 5: { if (r.v.empty()) return; size_t i = sym_pick(0, r.v.size() - 1); setField<1>(m, r, i, 0); break; }
  }
  check(m, r);
}

// ---- U01
template <unsigned U> struct Model { std::vector<uint8_t> s; };
template <unsigned U> static void setHistory(size_t maxIndex, int writes) {
  MultiBitVector<U> m; size_t q = sym_range(0, maxIndex); uint8_t want = 0; size_t top = 0; bool first = true;
  for (int k = 0; k < writes; k++) { size_t i = sym_range(0, maxIndex); uint8_t x = sym_bits(U); m.set(i, x); if (i == q) want = x; if (first || i > top) top = i; first = false; }
  ASSUME(q <= top);
  ASSERT(m[q] == want, "the symbol at an index is the one last written there, or 0");
}
#define SB "every history of 3 writes at any index below 150 (thorough 4 writes below 300), any symbols"
ENTRY(U01_set1, "1-bit symbols, " SB) { setHistory<1>(TIER(149, 299), TIER(3, 4)); }
ENTRY(U01_set2, "2-bit symbols, " SB) { setHistory<2>(TIER(149, 299), TIER(3, 4)); }
ENTRY(U01_set3, "3-bit symbols, every history of 3 writes at any index below 80 (thorough 4 writes below 300), any symbols") { setHistory<3>(TIER(79, 299), TIER(3, 4)); }

// A long vector: all symbols of the words around a boundary are symbolic, the others follow a fixed pattern
template <unsigned U> static void rankAt(size_t n, size_t from, size_t count, size_t q, unsigned pattern) {
  MultiBitVector<U> m; std::vector<uint8_t> s(n);
  for (size_t i = 0; i < n; i++) { s[i] = i >= from && i < from + count ? sym_bits(U) : pattern == 0 ? 0 : pattern == 1 ? (1u << U) - 1 : i % (1u << U); m.set(i, s[i]); }
  m.build();
  ASSERT(m[q] == s[q], "building keeps the symbols");
  ASSUME(s[q] != 0); // rank is defined for non-zero symbols
  size_t want = 0; for (size_t i = 0; i < q; i++) want += s[i] == s[q];
  size_t r = m.rank(q); OBS(r);
  ASSERT(r == want, "rank(i) is the number of earlier indices with the same symbol");
  HIT(want > 0, "some before");
}
template <unsigned U> static void rankCases() { EXPECT("some before");
  const size_t perWord = 64 / U, words = (size_t)MultiBitVector<U>::kBlocksInTipSize, tip = perWord * words; // symbols per word, per tip
  unsigned pattern = sym_pick(0, 2);
  size_t at = sym_pick(0, TIER(3, 5)); size_t edge = at == 0 ? 6 : at == 1 ? perWord : at == 2 ? tip : at == 3 ? 2 * tip : at == 4 ? 3 * perWord : tip - perWord;
  size_t n = edge + 6, from = edge - 6; size_t q = edge - 6 + sym_pick(0, 11);
  rankAt<U>(n, from, 12, q, pattern);
}
#define RB "12 symbolic symbols around the start and the word and tip boundaries of vectors up to two tips long, the rest 0, all-ones or cyclic; every non-zero index among the 12"
ENTRY(U01_rank1, "1-bit symbols, " RB) { rankCases<1>(); }
ENTRY(U01_rank2, "2-bit symbols, " RB) { rankCases<2>(); }
ENTRY(U01_rank3, "3-bit symbols, " RB) { rankCases<3>(); }
template <unsigned U> static void rankWhole(size_t n) { EXPECT("some before"); size_t k = sym_pick(0, TIER(11, (int)n - 1)), q = TIER(k < 6 ? n - 1 - k : k < 9 ? n / 2 + 7 - k : 11 - k, k); rankAt<U>(n, 0, n, q, 0); }
ENTRY(U01_rank_whole1, "every 1-bit vector of 66 symbols, 12 selected (thorough: every) indices holding a 1") { rankWhole<1>(66); }
ENTRY(U01_rank_whole2, "every 2-bit vector of 36 symbols, 12 selected (thorough: every) non-zero indices") { rankWhole<2>(36); }
ENTRY(U01_rank_whole3, "every 3-bit vector of 24 symbols, 12 selected (thorough: every) non-zero indices") { rankWhole<3>(24); }
// other numbers of fields, many blocks
template <size_t... F> static void fieldsEqual(MultipleVector &m, size_t i, const std::vector<uint64_t> &v, std::index_sequence<F...>) { const MultipleVector &c = m; bool a = true, b = true, d = true; ((a = a & (m.nested_element<F>(i) == v[F]), b = b & (m.block(i).template get<F>() == v[F]), d = d & (c.block(i).template get<F>() == v[F])), ...); ASSERT(a, "nested_element returns the value written"); ASSERT(b, "block().get returns the value written"); ASSERT(d, "const block().get returns the value written"); }
template <size_t... F> static void setFields(MultipleVector &m, size_t i, const std::vector<uint64_t> &v, size_t f, std::index_sequence<F...>) { ((F == f ? (void)m.set_nested_element<F>(i, v[F]) : (void)0), ...); }
template <size_t K> static void kFields(const std::vector<size_t> &w) {
  MultipleVector m; m.set_element_sizes(w); std::vector<std::vector<uint64_t>> r; size_t total = 0; for (auto x : w) total += x; ASSERT(m.block_size() == total, "block size"); for (size_t f = 0; f < K; f++) ASSERT(m.element_size(f) == w[f], "field width"); std::make_index_sequence<K> ix;
  for (size_t i = 0; i < 3; i++) { std::vector<uint64_t> v(K); m.emplace_back(); r.push_back(v); auto b = m.block(i); for (size_t f = 0; f < K; f++) { r[i][f] = sym_bits(8 * w[f]); b.template set_at<uint64_t>((int)f, r[i][f]); } }
  size_t i = sym_pick(0, 2), f = sym_pick(0, K - 1); r[i][f] = sym_bits(8 * w[f]); setFields(m, i, r[i], f, ix); ASSERT(m.size() == 3, "number of blocks"); for (size_t k = 0; k < 3; k++) { fieldsEqual(m, k, r[k], ix); for (size_t g = 0; g < K; g++) ASSERT(m.block(k).get_at(g) == r[k][g], "block().get_at returns the value written"); }
}
ENTRY(M01_one_field, "1 field of 1..8 bytes, 3 blocks, every contents") { kFields<1>({(size_t)sym_pick(1, 8)}); }
ENTRY(M01_two_fields, "2 fields of 1..8 bytes, 3 blocks, every contents") { size_t a = sym_pick(1, 8), b = sym_pick(1, 8); kFields<2>({a, b}); }
ENTRY(M01_five_fields, "5 fields of 8, 1, 4, 3, 2 and of 1, 8, 8, 8, 1 bytes, 3 blocks, every contents") { if (sym_pick(0, 1)) kFields<5>({8, 1, 4, 3, 2}); else kFields<5>({1, 8, 8, 8, 1}); }
ENTRY(M01_nine_fields, "9 fields of 1..8 bytes, 3 blocks, every contents") { kFields<9>({1, 2, 3, 4, 5, 6, 7, 8, 1}); }
static const size_t BN[] = {255, 256, 300, 4096, 13108, 65537};
static uint64_t mix(size_t i, size_t bytes) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; return (x ^ (x >> 29)) & maskOf(bytes); }
ENTRY(M01_large, "255..4096 (thorough 65537) blocks of 2, 8, 1 and 1, 3, 4 bytes, by push_back and by resize, one block symbolic") { STEPS(80000000);
  size_t n = BN[sym_pick(0, TIER(3, 5))]; Ref r; r.w = {2, 8, 1}; if (sym_pick(0, 1)) r.w = {1, 3, 4}; MultipleVector m({r.w[0], r.w[1], r.w[2]}); bool push = sym_pick(0, 1); std::array<uint64_t, 3> fill; for (size_t f = 0; f < 3; f++) fill[f] = sym_bits(8 * r.w[f]);
  if (push) for (size_t i = 0; i < n; i++) m.push_back({mix(i, r.w[0]), mix(i + 1, r.w[1]), mix(i + 2, r.w[2])}); else m.resize(n, {fill[0], fill[1], fill[2]});
  size_t at = sym_pick(0, 2); at = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; uint64_t x = sym_bits(8 * r.w[1]); m.set_nested_element<1>(at, x); ASSERT(m.size() == n, "number of blocks"); bool ok = true;
  for (size_t i = 0; i < n; i += i < 20 || i + 20 > n || (i + 9 > at && i < at + 9) ? 1 : 7) { uint64_t a = push ? mix(i, r.w[0]) : fill[0], b = i == at ? x : push ? mix(i + 1, r.w[1]) : fill[1], c = push ? mix(i + 2, r.w[2]) : fill[2]; ok = ok & (m.nested_element<0>(i) == a) & (m.nested_element<1>(i) == b) & (m.block(i).get<2>() == c) & (m.block(i).get_at(1) == b); } ASSERT(ok, "every block holds what was written");
}
template <unsigned U> static void veryLong() { STEPS(80000000);
  static const size_t N[] = {255, 257, 1100, 4097, 40000, 140000}; size_t n = N[sym_pick(0, TIER(3, 5))], kind = sym_pick(0, 2); bool back = sym_pick(0, 1); MultiBitVector<U> m; std::vector<uint8_t> s(n); for (size_t i = 0; i < n; i++) s[i] = kind == 0 ? mix(i, 1) >> 2 & ((1u << U) - 1) : kind == 1 ? (1u << U) - 1 : i % 700 == 699; s[n - 1] |= 1;
  for (size_t k = 0; k < n; k++) { size_t i = back ? n - 1 - k : k; if (s[i] || k % 3 == 0) m.set(i, s[i]); } size_t at = n / 3; uint8_t x = sym_bits(U); s[at] = x; m.set(at, x); m.build();
  bool ok = true, rk = true; std::vector<size_t> c(1u << U); size_t step = n > 2000 ? 37 : 5; for (size_t i = 0; i < n; i++) { bool look = i % step == 0 || i < 70 || i + 70 > n || i == at + 1; if (look || i == at) ok = ok & (m[i] == s[i]); if (look && i != at && s[i] != 0) rk = rk & (m.rank(i) == c[s[i]]); for (unsigned t = 0; t < (1u << U); t++) c[t] += s[i] == t; } ASSERT(ok, "the symbol at an index is the one last written there, or 0"); ASSERT(rk, "rank(i) is the number of earlier indices with the same symbol");
}
#define VL "255..4097 (thorough 140000) symbols in 3 fillings, written forwards and backwards, one symbol symbolic; ranks on a grid"
ENTRY(U01_very_long1, "1-bit symbols, " VL) { veryLong<1>(); }
ENTRY(U01_very_long2, "2-bit symbols, " VL) { veryLong<2>(); }
ENTRY(U01_very_long3, "3-bit symbols, " VL) { veryLong<3>(); }
