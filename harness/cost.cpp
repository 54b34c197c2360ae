// Z02: the step counts the structures exist for. Steps are basic blocks entered plus one per 16 bytes allocated (WORK());
// the limits leave several times what the code needs and are far below what a walk over the structure would take.
#include "vstream.h"
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/sort.hpp>
#include <sim_ds/string_util/PatternMatching.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/graph_util.hpp>
#include <sim_ds/string_util/Samc.hpp>
using namespace sim_ds;
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
#ifdef MEASURE
#define COST(what, limit, ...) do { uint64_t w_ = WORK(); __VA_ARGS__; w_ = WORK() - w_; __sym_print(what, w_); __sym_print("   limit", (limit)); } while (0)
#else
#define COST(what, limit, ...) do { uint64_t w_ = WORK(); __VA_ARGS__; w_ = WORK() - w_; ASSERT(w_ <= (uint64_t)(limit), what); } while (0)
#endif
static size_t lg(size_t n) { size_t r = 1; while (n >>= 1) r++; return r; }

// ---- bits
static BitVector bits(size_t n, size_t kind) { BitVector b(n); uint64_t *d = b.data(); for (size_t k = 0; k < n / 64; k++) d[k] = kind == 0 ? mix(k) : kind == 1 ? (k % 60 == 59 ? 1ull << (k % 64) : 0) : kind == 2 ? ~0ull : k < n / 128 ? ~0ull : 0; return b; }
template <bool S> static void ranks() {
  STEPS(80000000); size_t n = sym_pick(0, 1) ? TIER(262144, 1048576) : 4096 + 64; SuccinctBitVector<S> b(bits(n, sym_pick(0, 3))); size_t w = sym_pick(0, 3), word = w == 0 ? 0 : w == 1 ? n / 128 : w == 2 ? n / 64 - 1 : n / 64 - 8, i = word * 64 + sym_bits(6); size_t r = 0; bool x = false;
  COST("rank takes a constant number of steps", 80, r = b.rank(i)); OBS(r); COST("rank_0 takes a constant number of steps", 100, r = b.rank_0(i)); COST("operator[] takes a constant number of steps", 40, x = b[i]); OBS(x); COST("size takes a constant number of steps", 20, r = b.size());
}
#define ZN "vectors of 4160 and 262144 (thorough 1048576) bits of 4 densities"
ENTRY(Z02_rank, ZN ", 4 words, every bit in them") { ranks<false>(); }
ENTRY(Z02_rank_select, ZN ", 4 words, every bit in them, with select support") { ranks<true>(); }
ENTRY(Z02_select, ZN ", 9 values of k") {
  STEPS(80000000); size_t n = sym_pick(0, 1) ? TIER(262144, 1048576) : 4096 + 64; SuccinctBitVector<true> b(bits(n, sym_pick(0, 3))); size_t ones = b.rank(n), k = (ones - 1) * sym_pick(0, 8) / 8, r = 0;
  COST("select takes a logarithmic number of steps", 120 + 8 * lg(n), r = b.select(k)); OBS(r); 
}
ENTRY(Z02_build, ZN) {
  STEPS(80000000); size_t n = sym_pick(0, 1) ? TIER(262144, 1048576) : 4096 + 64; BitVector v = bits(n, sym_pick(0, 3)); bool sel = sym_pick(0, 1); size_t r = 0;
  if (sel) COST("building takes a linear number of steps", n + 500, SuccinctBitVector<true> b(v); r = b.num_blocks()); else COST("building takes a linear number of steps", n + 500, SuccinctBitVector<false> b(v); r = b.num_blocks()); OBS(r);
}
ENTRY(Z02_vectors, "BitVector, FitVector of width 7, MultiBitVector<3>: reads and writes in 1000 and 20000 elements, 3 positions, any value") {
  STEPS(80000000); size_t n = sym_pick(0, 1) ? 1000 : 20000, i = sym_pick(0, 2) * (n - 1) / 2; uint64_t v = sym_bits(3); uint64_t r = 0;
  switch (sym_pick(0, 2)) {
  case 0: { BitVector b(n); COST("a write takes a constant number of steps", 60, b[i] = v & 1); COST("a read takes a constant number of steps", 60, r = b[i]); ASSERT(r == (v & 1), "the value"); break; }
  case 1: { FitVector f(7, n); COST("a write takes a constant number of steps", 120, f[i] = v); COST("a read takes a constant number of steps", 120, r = f[i]); ASSERT(r == v, "the value"); break; }
  case 2: { MultiBitVector<3> m; m.resize(n); COST("a write takes a constant number of steps", 120, m.set(i, v)); COST("a read takes a constant number of steps", 120, r = m[i]); ASSERT(r == v, "the value"); break; }
  }
}
ENTRY(Z02_append, "BitVector, FitVector of width 7: 20000 appends; MultipleVector, MinHeap in increasing order: 3000 appends; any value") {
  STEPS(80000000); uint64_t v = sym_bits(7); size_t n = 20000; MERGE(1);
  uint64_t a = ALLOCATED(); size_t bytes = 0; switch (sym_pick(0, 3)) {
    case 0: { BitVector b; COST("appending takes a constant number of steps each", 40 * n, for (size_t k = 0; k < n; k++) b.push_back(v & 1)); ASSERT(b.size() == n, "size"); bytes = n / 8; break; }
    case 1: { FitVector f(7); COST("appending takes a constant number of steps each", 60 * n, for (size_t k = 0; k < n; k++) f.push_back(v)); ASSERT(f.size() == n, "size"); bytes = n * 7 / 8; break; }
    case 2: { MultipleVector m({1, 2}); n = 3000; COST("appending takes a constant number of steps each", 120 * n, for (size_t k = 0; k < n; k++) m.push_back({v, 1})); ASSERT(m.size() == n, "size"); bytes = n * 3; break; }
    case 3: { MinHeap h; n = 3000; COST("appending takes a constant number of steps each", 60 * n, for (size_t k = 0; k < n; k++) h.push(k * 128 + v)); ASSERT(h.size() == n, "size"); bytes = n * 8; break; }
  }
  a = ALLOCATED() - a; 
#ifdef MEASURE
  __sym_print("allocated", a); __sym_print("   limit", 6 * bytes + 4096);
#else
  ASSERT(a <= 6 * bytes + 4096, "appending allocates a constant number of bytes each");
#endif
}
ENTRY(Z02_multi_rank, "MultiBitVector<2>: 300 and 20000 elements, 3 positions, any symbol there") {
  STEPS(80000000); size_t n = sym_pick(0, 1) ? 300 : 20000, i = sym_pick(0, 2) * (n - 1) / 2; MultiBitVector<2> m; m.resize(n); for (size_t k = 0; k < n; k++) m.set(k, 1 + mix(k) % 3); m.set(i, sym_range(1, 3)); m.build(); size_t r = 0; COST("rank takes a constant number of steps", 120, r = m.rank(i)); OBS(r);
}
ENTRY(Z02_wavelet, "5000 symbols below 2, 7, 200: 4 positions") {
  STEPS(80000000); static const size_t A[] = {2, 7, 200}; size_t a = A[sym_pick(0, 2)], n = 5000, h = lg(a - 1); std::vector<uint8_t> v(n); for (size_t k = 0; k < n; k++) v[k] = mix(k) % a; WaveletTree t(v); size_t i = sym_pick(0, 3) * (n - 1) / 3, r = 0;
  COST("access takes a constant number of steps per level", 40 + 120 * h, r = t[i]); OBS(r); COST("rank takes a constant number of steps per level", 40 + 120 * h, r = t.rank(i)); OBS(r); COST("rank of a symbol takes a constant number of steps per level", 40 + 120 * h, r = t.rank(v[i], i)); OBS(r); COST("AccessAndRank takes a constant number of steps per level", 40 + 120 * h, r = t.AccessAndRank(i).second); OBS(r);
}
ENTRY(Z02_dac, "DacVectors of 200 and 3000 elements in 3 layers: 4 positions, any value of 3, 15, 40 or 64 bits there") {
  STEPS(200000000); MERGE(0); size_t n = sym_pick(0, 1) ? 200 : 3000; std::vector<uint64_t> v(n); for (size_t k = 0; k < n; k++) v[k] = mix(k) >> (mix(k + 1) % 2 ? 62 : mix(k + 2) % 2 ? 50 : 40); size_t i = sym_pick(0, 3) * (n - 1) / 3; static const size_t L[] = {3, 15, 40, 64}; size_t l = L[sym_pick(0, 3)]; v[i] = (1ull << (l - 1)) | sym_bits(l - 1); DacVector d(v, std::vector<size_t>{4, 12, 48}); uint64_t r = 0;
  COST("access takes a constant number of steps per layer", 3 * 250, r = d[i]); ASSERT(r == v[i], "the element");
}
ENTRY(Z02_rank_any, "every content of 1088 bits, every index") { BitVector v((size_t)1088); for (size_t k = 0; k < 17; k++) v.data()[k] = sym_u64(); SuccinctBitVector<true> b(v); size_t w = sym_pick(0, 17), r = sym_bits(6), i = w * 64 + r; ASSUME(i <= 1088); size_t x = 0; COST("rank takes a constant number of steps", 80, x = b.rank(i)); OBS(x); }
ENTRY(Z02_select_any, "every content of 640 bits, every k") { BitVector v((size_t)640); for (size_t k = 0; k < 10; k++) v.data()[k] = sym_u64(); SuccinctBitVector<true> b(v); size_t ones = b.rank(640), k = sym_bits(10); ASSUME(k < ones); size_t x = 0; COST("select takes a logarithmic number of steps", 120 + 8 * lg(640), x = b.select(k)); OBS(x); }
ENTRY(Z02_heap_any, "6 elements of any 16-bit value pushed and popped") { MERGE(0); MinHeap h; for (int k = 0; k < 4; k++) h.push(sym_bits(16)); uint64_t x = sym_bits(16); COST("push takes a logarithmic number of steps", 60 + 40 * lg(5), h.push(x)); for (int k = 0; k < 5; k++) COST("pop takes a logarithmic number of steps", 60 + 40 * lg(5), h.pop()); }
// ---- hashing
ENTRY(Z02_hash, "CHT of 20-bit keys: 60, 1000 fixed keys set, found, found missing and erased; any value") {
  STEPS(200000000); MERGE(1); size_t n = sym_pick(0, 1) ? 60 : 1000; CHT<8> t(20); uint64_t v = sym_bits(8); size_t hit = 0; auto key = [](size_t k) { return mix(k) & 0xfffff; };
  COST("setting takes a constant number of steps on average", 700 * n, for (size_t k = 0; k < n; k++) t.set(key(k), v)); COST("finding takes a constant number of steps on average", 200 * n, for (size_t k = 0; k < n; k++) hit += t.get(key(k)).first); ASSERT(hit == n, "found");
  COST("missing takes a constant number of steps on average", 200 * n, for (size_t k = 0; k < n; k++) t.get(key(k + 5000))); COST("erasing takes a constant number of steps on average", 800 * n, for (size_t k = 0; k < n; k++) t.erase(key(k)));
}
// ---- heaps
ENTRY(Z02_heap, "MinHeap of 30 and 700 fixed elements and one of any 10-bit value") {
  STEPS(200000000); MERGE(0); size_t n = sym_pick(0, 1) ? 30 : 700, r = 0; MinHeap h; for (size_t k = 0; k < n; k++) h.push((mix(k) >> 54)); uint64_t v = sym_bits(10);
  COST("push takes a logarithmic number of steps", 100 + 60 * lg(n) + n / 4, h.push(v)); COST("front takes a constant number of steps", 20, r = h.front()); COST("pop takes a logarithmic number of steps", 100 + 80 * lg(n), h.pop()); ASSERT(h.size() == n, "size");
}
ENTRY(Z02_sort, "200 and 1000 elements in 4 orders, the middle one 0, 341, 682 or 1023; HeapSort and drained MinHeaps") {
  STEPS(200000000); MERGE(1); size_t n = sym_pick(0, 1) ? 200 : 1000, kind = sym_pick(0, 3); std::vector<uint64_t> v(n); for (size_t k = 0; k < n; k++) v[k] = kind == 0 ? k : kind == 1 ? n - k : kind == 2 ? 5 : mix(k) >> 54; v[n / 2] = 341 * sym_pick(0, 3); bool ok = true;
  if (sym_pick(0, 1)) { COST("HeapSort takes O(n log n) steps", 60 * n * lg(n), HeapSort(v.begin(), v.end(), std::less<uint64_t>())); for (size_t k = 1; k < n; k++) ok = ok & (v[k - 1] <= v[k]); }
  else { uint64_t last = 0; COST("building and draining a heap takes O(n log n) steps", 120 * n * lg(n), { MinHeap h(v.begin(), v.end()); for (size_t k = 0; k < n; k++) { ok = ok & (last <= h.front()); last = h.front(); h.pop(); } }); }
  ASSERT(ok, "in order");
}
// ---- strings
static std::string repeat(const std::string &s, size_t n) { std::string r; while (r.size() < n) r += s; r.resize(n); return r; }
static const char *UNITS[] = {"a", "ab", "aab", "aaaaaaaaaaaaaaab"};
template <class F> static void search(F f, size_t per) {
  STEPS(200000000); MERGE(0); size_t m = sym_pick(0, 1) ? 20 : 150, n = 1200, u = sym_pick(0, 3); std::string key = repeat(UNITS[u], m), text = repeat(UNITS[sym_pick(0, 3)], n); size_t at = sym_pick(0, 3); if (at < 3) key[at * (m - 1) / 2] = (char)sym_u8(); std::vector<size_t> r;
  COST("a search takes a number of steps linear in text and key", per * (n + m) + 2000, r = f(text, key)); OBS(r.size());
}
#define ZS "keys of 20 and 150 letters of 4 periods, one of 3 letters replaced by any byte, in texts of 1200 letters of 4 periods"
ENTRY(Z02_kmp, ZS) { search([](const std::string &t, const std::string &k) { return pattern_matching::PatternMatchKMP(t, k); }, 25); }
static std::string text(size_t n, size_t kind) { std::string t(n, 'a'); if (kind == 0) t[n / 2] = (char)("ab\xff"[sym_pick(0, 2)]); else if (kind == 1) for (size_t i = 0; i < n; i++) t[i] = "ab"[mix(i) & 1]; else if (kind == 2) { std::string f = "a", g = "ab"; while (g.size() < n) { std::string h = g + f; f = g; g = h; } t = g.substr(0, n); } else for (size_t i = 0; i < n; i++) t[i] = (char)(1 + mix(i) % 250); return t; }
ENTRY(Z02_suffix, "texts of 100 and 1500 letters: a run, Fibonacci, 2 and 250 letters") { STEPS(400000000); size_t n = sym_pick(0, 1) ? 100 : 1500, k = sym_pick(0, 3); std::string t = text(n, k); size_t r = 0; COST("building a suffix array takes a near linear number of steps", 1200 * n + 30000, SuffixArray s(t); r = s.char_at(0)); OBS(r); }
ENTRY(Z02_oracle, "texts of 100 and 1500 letters: a run, Fibonacci, 2 and 250 letters") { STEPS(400000000); size_t n = sym_pick(0, 1) ? 100 : 1500, k = sym_pick(0, 3); std::string t = text(n, k); bool r = false; FactorOracle o(t); std::string q = t.substr(n / 3, n / 3); COST("a query takes a number of steps linear in its length", 100 * q.size() + 100, r = o.accept(q)); ASSERT(r, "a factor is accepted"); }
ENTRY(Z02_trie, "tries of 20 and 400 keys of 8 letters: one lookup of a key, one of any last byte") {
  STEPS(400000000); size_t n = sym_pick(0, 1) ? 20 : 400; graph_util::Trie<uint64_t> t; auto key = [](size_t k) { std::string s; for (uint64_t x = mix(k), i = 0; i < 8; i++, x >>= 7) s += (char)('a' + x % 16); return s; }; std::vector<std::string> ks; for (size_t k = 0; k < n; k++) ks.push_back(key(k)); COST("insertions take a number of steps that depends on the keys only", 9 * 250 * n, for (size_t k = 0; k < n; k++) t.insert(ks[k], k)); uint64_t *r = nullptr; std::string q = key(n / 2);
  COST("a lookup takes a number of steps that depends on the key only", 9 * 60, r = t.traverse(q)); ASSERT(r && *r == n / 2, "found"); q[7] = (char)sym_u8(); COST("a lookup takes a number of steps that depends on the key only", 9 * 60, r = t.traverse(q));
}
ENTRY(Z02_samc, "Samc and SamcDict of 10 and 150 keys of 5 letters: one lookup of a key, one of any last byte") {
  STEPS(400000000); size_t n = sym_pick(0, 1) ? 10 : 150; std::set<std::string> s; for (size_t k = 0; s.size() < n; k++) { std::string q; for (uint64_t x = mix(k), i = 0; i < 5; i++, x >>= 7) q += (char)('a' + x % 8); s.insert(q); } std::vector<std::string> ks(s.begin(), s.end()); std::string q = ks[n / 2], p = q; p[4] = (char)sym_u8(); bool r = false; size_t v = 0;
  if (sym_pick(0, 1)) { Samc<uint32_t, false> a(ks.begin(), ks.end()); COST("a lookup takes a number of steps that depends on the key only", 6 * 60, r = a.accept(q)); ASSERT(r, "accepted"); COST("a lookup takes a number of steps that depends on the key only", 6 * 60, r = a.accept(p)); OBS(r); }
  else { SamcDict<uint32_t> a(ks.begin(), ks.end()); COST("a lookup takes a number of steps that depends on the key only", 6 * 60, v = a.lookup(q)); OBS(v); COST("a lookup takes a number of steps that depends on the key only", 6 * 60, v = a.lookup(p)); OBS(v); }
}
