// K01: copies and moves of every structure hold the same contents and are independent.
#include "vstream.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/InitializableArray.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/graph_util.hpp>
using namespace sim_ds;

// a: any object; same(x): x holds what a held; change(x): makes x hold something else; other: an object with other contents
template <class C, class S, class M> static void copies(C &a, S same, M change, const C &other) {
  ASSERT(same(a), "before"); C b(a); ASSERT(same(b) && same(a), "a copy holds the same"); change(a); ASSERT(same(b), "changing the source leaves the copy"); ASSERT(!same(a), "the change is visible");
  C c(other); c = b; ASSERT(same(c) && same(b), "assignment over other contents"); a = c; ASSERT(same(a), "assignment back"); change(b); ASSERT(same(c) && same(a), "changing the source leaves the copies");
  C d(std::move(c)); ASSERT(same(d), "a move holds the same"); c = d; ASSERT(same(c) && same(d), "an object moved from can be assigned to"); b = std::move(d); ASSERT(same(b), "move assignment over other contents"); change(c); ASSERT(same(b), "independent of the source"); d = b; ASSERT(same(d) && same(b), "assigned to again"); change(b); ASSERT(same(d) && same(a), "still independent");
}
ENTRY(K01_bitvector, "BitVectors of 0..3, 64, 65 bits, every content") { static const size_t N[] = {1, 2, 3, 64, 65, 0}; size_t n = N[sym_pick(0, 5)]; BitVector a(n); uint64_t w = sym_u64(); for (size_t i = 0; i < n; i++) a[i] = (w >> (i % 64)) & 1;
  copies(a, [&](const BitVector &x) { bool ok = x.size() == n; for (size_t i = 0; ok && i < n; i++) ok = ok & (x[i] == (bool)((w >> (i % 64)) & 1)); return ok; }, [](BitVector &x) { if (x.size()) x[0] = !x[0]; x.push_back(true); }, BitVector((size_t)70, true)); }
template <bool S> static void succinct() { size_t n = sym_pick(0, 3); n = n == 3 ? 70 : n; uint64_t w = sym_pick(0, 3); BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = (w >> (i % 2)) & 1; typedef SuccinctBitVector<S> V; V a(b); V o(BitVector((size_t)130, true));
  copies(a, [&](const V &x) { if (x.size() != n) return false; size_t c = 0; bool ok = true; for (size_t i = 0; i < n; i++) { ok = ok & (x[i] == (bool)b[i]) & (x.rank(i) == c); if constexpr (S) { if (b[i]) ok = ok & (x.select(c) == i); } c += (bool)b[i]; } return ok; }, [&](V &x) { x = o; }, o); }
ENTRY(K01_succinct, "rank and select vectors of 0..2 and 70 bits, 4 contents") { if (sym_pick(0, 1)) succinct<true>(); else succinct<false>(); }
ENTRY(K01_fit, "FitVectors of widths 1, 7, 33, 64, 0..3 elements, every content") { static const size_t W[] = {1, 7, 33, 64}; size_t w = W[sym_pick(0, 3)], n = sym_pick(0, 3); FitVector a(w, n, 0); std::vector<uint64_t> r(n); for (size_t i = 0; i < n; i++) { r[i] = sym_bits(w); a[i] = r[i]; }
  copies(a, [&](const FitVector &x) { bool ok = x.size() == n && x.unit_width() == w; for (size_t i = 0; ok && i < n; i++) ok = ok & (x[i] == r[i]); return ok; }, [](FitVector &x) { x.push_back(1); if (x.size() > 1) x[0] = x[0] ^ 1; }, FitVector(9, 5, 3)); }
ENTRY(K01_multiple, "MultipleVectors of fields of 1 and 8 bytes, 0..2 blocks, every content") { size_t n = sym_pick(0, 2); MultipleVector a({1, 8}); std::vector<std::array<uint64_t, 2>> r(n); for (auto &x : r) { x[0] = sym_u8(); x[1] = sym_u64(); a.push_back({x[0], x[1]}); } MultipleVector o({2, 3}); o.push_back({4, 5});
  copies(a, [&](const MultipleVector &x) { bool ok = x.size() == n && x.element_size(0) == 1 && x.element_size(1) == 8; for (size_t i = 0; ok && i < n; i++) ok = ok & (x.nested_element<0>(i) == r[i][0]) & (x.nested_element<1>(i) == r[i][1]) & (x.block(i).get<1>() == r[i][1]); return ok; }, [](MultipleVector &x) { if (x.size() == 1) x.set_nested_element<1>(0, x.nested_element<1>(0) ^ 1); else if (x.size() > 1) { auto b = x.block(0); b.set_at(1, b.get_at(1) ^ 1); ASSERT(x.nested_element<1>(0) == x.block(0).get_at(1), "a block is part of its vector"); x.block(1).set<0>(x.nested_element<0>(1) ^ 1); } if (x.size() < 2) x.push_back({1, 2}); }, o); }
template <unsigned U> static void multibit() { static const size_t N[] = {1, 2, 30}; size_t n = N[sym_pick(0, 2)]; typedef MultiBitVector<U> V; V a; std::vector<uint8_t> r(n); for (size_t i = 0; i < n; i++) { r[i] = i < 2 ? sym_bits(U) : (i * 3 + 1) % (1u << U); a.set(i, r[i]); } a.build(); V o; for (size_t i = 0; i < 80; i++) o.set(i, 1); o.build();
  copies(a, [&](const V &x) { bool ok = true, rk = true; std::vector<size_t> c(1u << U); for (size_t i = 0; i < n; i++) { ok = ok & (x[i] == r[i]); if (i > 1 && r[i] && x[i] == r[i]) { size_t want = 0; for (size_t k = 0; k < i; k++) want += r[k] == r[i]; rk = rk & (x.rank(i) == want); } } return ok & rk; }, [](V &x) { x.set(0, x[0] ^ 1); }, o); }
ENTRY(K01_multibit, "symbols of 1, 2, 3 bits, 1, 2 or 30 of them, the first two symbolic") { size_t u = sym_pick(1, 3); if (u == 1) multibit<1>(); else if (u == 2) multibit<2>(); else multibit<3>(); }
ENTRY(K01_dac, "DacVectors of 0..2 elements of 1, 9 and 64 bits, every value of that length; 2 fixed layers as well") { static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 2); std::vector<uint64_t> v(n); for (auto &x : v) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } bool layers = sym_pick(0, 1); DacVector a = layers ? DacVector(v, std::vector<size_t>{5, 59}) : DacVector(v), o(std::vector<uint64_t>{70000, 1, 2}); STEPS(3000000);
  copies(a, [&](const DacVector &x) { bool ok = x.size() == n; for (size_t i = 0; ok && i < n; i++) ok = ok & (x[i] == v[i]); return ok; }, [&](DacVector &x) { x = o; }, o); }
ENTRY(K01_wavelet, "wavelet trees of 1..3 2-bit and of one 7-bit symbol, every content") { size_t n = sym_pick(0, 3); std::vector<uint8_t> v(n ? n : 1); for (auto &x : v) x = n ? 2 | sym_bits(1) : 64 | sym_bits(6); WaveletTree a(v), o(std::vector<uint8_t>{1, 0, 5, 4, 3}); copies(a, [&](const WaveletTree &x) { if (x.size() != v.size()) return false; bool ok = true; for (size_t i = 0; i < v.size(); i++) { size_t c = 0; for (size_t k = 0; k < i; k++) c += v[k] == v[i]; ok = ok & (x[i] == v[i]) & (x.rank(i) == c); } return ok; }, [&](WaveletTree &x) { x = o; }, o); }
ENTRY(K01_heap, "heaps of 0..2 12-bit elements") { MERGE(0); size_t n = sym_pick(0, 2); std::vector<uint64_t> v(n); for (auto &x : v) x = sym_bits(12); MaxHeap a(v), o(std::vector<uint64_t>{9, 8, 7}); if (n == 2 && v[0] < v[1]) std::swap(v[0], v[1]); copies(a, [&](const MaxHeap &x) { MaxHeap y(x); bool ok = y.size() == n; for (size_t i = 0; ok && i < n; i++) { ok = ok & (y.front() == v[i]); y.pop(); } return ok; }, [](MaxHeap &x) { x.push(5000); }, o); }
ENTRY(K01_cht, "hash tables of 1..3 keys, any 8-bit values") { MERGE(0); size_t n = sym_pick(1, 3); static const uint64_t K[] = {3, 77, 1024}; typedef CHT<8> T; T a(12), o(12); std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) { v[i] = sym_u8(); a.set(K[i], v[i]); } for (uint64_t k = 0; k < 40; k++) o.set(k * 5, k);
  copies(a, [&](const T &x) { bool ok = x.size() == n; for (size_t i = 0; ok && i < n; i++) { auto r = x.get(K[i]); if (!r.first) return false; ok = ok & (r.second == v[i]); } return ok; }, [&](T &x) { x.set(K[0], v[0] ^ 1); x.set(500, 1); x.erase(K[n - 1]); }, o); }
ENTRY(K01_cdrw, "CDRWVectors of 0..2 elements, values of 1, 9 and 64 bits") { MERGE(0); static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 2); std::vector<uint64_t> v(n); CDRWVector a, o; for (auto &x : v) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); a.push_back(x); } for (uint64_t k = 0; k < 5; k++) o.push_back(k * 99); STEPS(20000000);
  copies(a, [&](const CDRWVector &x) { bool ok = x.size() == n; for (size_t i = 0; ok && i < n; i++) ok = ok & (x.get(i) == v[i]); return ok; }, [](CDRWVector &x) { if (x.size()) x.set(0, 12345678); x.push_back(3); }, o); }
ENTRY(K01_initializable, "in-place arrays of 6 bytes over any prior memory after 2 sets, and back-pointer arrays of 3 elements, any values") { MERGE(1);
  if (sym_pick(0, 1)) { typedef InitializableArray<uint8_t, 6> A; uint8_t v = sym_u8(), x = sym_u8(), y = sym_u8(); size_t i = sym_pick(0, 5), j = sym_pick(0, 5); A a(v), o(9); o.set(3, 4); a.set(i, x); a.set(j, y); std::vector<uint8_t> r(6, v); r[i] = x; r[j] = y; copies(a, [&](const A &b) { bool ok = true; for (size_t k = 0; k < 6; k++) ok = ok & (b.get(k) == r[k]); return ok; }, [](A &b) { b.set(5, b.get(5) ^ 1); b.set(0, b.get(0) + 1); }, o); }
  else { typedef InitializableArrayFolklore<uint32_t> A; uint32_t v = sym_u32(), x = sym_u32(); size_t i = sym_pick(0, 2); A a((size_t)3, v), o((size_t)5, (uint32_t)9); a.set(i, x); copies(a, [&](const A &b) { bool ok = b.size() == 3; for (size_t k = 0; ok && k < 3; k++) ok = ok & (b.get(k) == (k == i ? x : v)); return ok; }, [](A &b) { b.set(2, b.get(2) ^ 1); b.fill(b.get(2) + 7); b.set(1, b.get(1) ^ 2); }, o); } }
ENTRY(K01_trie, "tries of 2 keys, any items") { typedef graph_util::Trie<uint64_t> T; uint64_t u = sym_u64(), v = sym_u64(); T a, o; a.insert("ab", u); a.insert("b", v); o.insert("zzz", 1); o.insert("ab", 2); copies(a, [&](const T &x) { T &y = const_cast<T &>(x); uint64_t *p = y.traverse("ab"), *q = y.traverse("b"); return p && q && *p == u && *q == v && !y.traverse("c") && !y.traverse("zzz"); }, [&](T &x) { x.insert("c", 1); x.insert("b", v + 1); }, o); }
typedef std::vector<std::string> Keys;
static Keys subset() { Keys k; bool any = false; static const char *U[] = {"", "a", "ab", "\x80\xfe"}; for (int i = 0; i < 4; i++) { bool in = i == 3 && !any ? true : sym_pick(0, 1); if (in) { k.push_back(U[i]); any = true; } } return k; }
static size_t find(const Keys &ks, std::string_view q) { for (size_t i = 0; i < ks.size(); i++) if (ks[i] == q) return i; return ks.size(); }
static const Keys OTHER{"ab", "abcdef", "x"}, QUERIES{"", "a", "ab", "b", "\x80\xfe", "x", "abcdef"};
ENTRY(K01_samc, "Samc: any non-empty subset of 4 keys") { STEPS(8000000); typedef Samc<uint32_t, false> T; Keys k = subset(); T a(k.begin(), k.end()), o(OTHER.begin(), OTHER.end()); copies(a, [&](const T &x) { bool ok = true; for (auto &q : QUERIES) ok = ok & (x.accept(q) == (find(k, q) < k.size())); return ok; }, [&](T &x) { x = o; }, o); }
ENTRY(K01_dict, "SamcDict: any non-empty subset of 4 keys") { STEPS(8000000); typedef SamcDict<uint32_t> T; Keys k = subset(); T a(k.begin(), k.end()), o(OTHER.begin(), OTHER.end()); std::vector<size_t> id; for (auto &x : k) id.push_back(a.lookup(x)); copies(a, [&](const T &x) { bool ok = true; for (auto &q : QUERIES) { size_t i = find(k, q); if (x.lookup(q) != (i < k.size() ? id[i] : T::kSearchError)) return false; if (i < k.size()) ok = ok & (x.access(id[i]) == k[i]); } return ok; }, [&](T &x) { x = o; }, o); }
ENTRY(K01_oracle, "factor oracles of words of 1..3 letters of {a, b}, any query of 2 bytes") { STEPS(2000000); size_t n = sym_pick(1, 3); std::string t(n, 'a'); for (auto &c : t) c = "ab"[sym_pick(0, 1)]; FactorOracle a(t), o(std::string("czc")), f(t); char q[2] = {(char)sym_u8(), (char)sym_u8()}; bool r1 = f.accept(std::string_view(q, 1)), r2 = f.accept(std::string_view(q, 2)); copies(a, [&](const FactorOracle &x) { return x.accept(std::string_view(q, 1)) == r1 && x.accept(std::string_view(q, 2)) == r2 && x.accept(t) && !x.accept("z"); }, [&](FactorOracle &x) { x = o; }, o); }
ENTRY(K01_suffix, "suffix arrays of words of 1..3 letters of {a, b}") { STEPS(8000000); size_t n = sym_pick(1, 3); std::string t(n, 'a'); for (auto &c : t) c = "ab"[sym_pick(0, 1)]; SuffixArray a(t), o(std::string("mississippi")), f(t); VStream v(4096), w(4096); f.WriteSA(v.os()); f.WriteLCP(w.os()); copies(a, [&](const SuffixArray &x) { VStream p(4096), q(4096); x.WriteSA(p.os()); x.WriteLCP(q.os()); if (p.written() != v.written() || q.written() != w.written()) return false; bool ok = true; for (size_t i = 0; i < v.written(); i++) ok = ok & (p.byte(i) == v.byte(i)); for (size_t i = 0; i < w.written(); i++) ok = ok & (q.byte(i) == w.byte(i)); for (size_t i = 0; i < n; i++) ok = ok & (x.char_at(i) == (uint8_t)t[i]) & (x.suffix(i) == std::string_view(t).substr(i)); return ok; }, [&](SuffixArray &x) { x = o; }, o); }
