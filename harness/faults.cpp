// E01: operations that are refused throw and change nothing. E02: when an allocation fails, the operation that needed it throws,
// nothing leaks, and the structure it was to change still holds what it held and takes the change when it is asked again.
// The allocation that fails is a symbolic choice of the run.
#include "vstream.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/InitializableArray.hpp>
#include <sim_ds/BijectiveHash.hpp>
#include <sim_ds/sort.hpp>
#include <sim_ds/calc.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/PatternMatching.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/graph_util.hpp>
using namespace sim_ds;
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
// old(x): x holds what it did before; now(x): x holds what it should once op is done
template <class C, class Op, class O, class N> static void struck(C &x, size_t k, Op op, O old, N now) {
  bool done = true; FAIL_AT(k); try { op(x); } catch (...) { done = false; } FAIL_AT(0);
  if (!done) { ASSERT(old(x), "a change that failed leaves the contents"); op(x); }
  ASSERT(now(x), "the change is made, at the latest when asked again"); }
// f builds objects, uses and destroys them
template <class F> static void built(size_t K, F f) { size_t k = sym_pick(1, K), before = LIVE(); FAIL_AT(k); try { f(); } catch (...) { } FAIL_AT(0); ASSERT(LIVE() == before, "nothing leaks when an allocation fails"); OBS(f()); ASSERT(LIVE() == before, "nothing leaks"); }
struct Leaks { size_t before = LIVE(); void none() { ASSERT(LIVE() == before, "nothing leaks"); } };
#define E1 "refused requests: "
#define E2 "one allocation fails, "

// ---- E01
template <class F> static bool refused(F f) { try { f(); } catch (...) { return true; } return false; }
ENTRY(E01_bitvector, E1 "at() of BitVectors of 0, 1, 64, 65 bits, any content, any index that is out of range") { static const size_t N[] = {1, 0, 64, 65}; size_t n = N[sym_pick(0, 3)]; uint64_t w = sym_u64(); BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = (w >> (i % 64)) & 1; const BitVector &c = b; uint64_t i = sym_u64(); ASSUME(i >= n);
  ASSERT(refused([&] { b.at(i) = true; }), "at() outside throws"); ASSERT(refused([&] { OBS((bool)c.at(i)); }), "const at() outside throws"); bool ok = b.size() == n; for (size_t j = 0; ok && j < n; j++) ok = ok & (b[j] == (bool)((w >> (j % 64)) & 1)); ASSERT(ok, "nothing changes"); if (n) { size_t j = sym_below(n); ASSERT((bool)b.at(j) == b[j] && (bool)c.at(j) == b[j], "inside it does not throw"); } }
ENTRY(E01_fit, E1 "at() of FitVectors of widths 1, 7, 33, 64 and 0..3 elements, any content, any index that is out of range") { static const size_t W[] = {1, 7, 33, 64}; size_t w = W[sym_pick(0, 3)], n = sym_pick(0, 3); FitVector v(w, n, 0); std::vector<uint64_t> r(n); for (size_t i = 0; i < n; i++) { r[i] = sym_bits(w); v[i] = r[i]; } const FitVector &c = v; uint64_t i = sym_u64(); ASSUME(i >= n);
  ASSERT(refused([&] { v.at(i) = 1; }), "at() outside throws"); ASSERT(refused([&] { OBS((uint64_t)c.at(i)); }), "const at() outside throws"); bool ok = v.size() == n; for (size_t j = 0; ok && j < n; j++) ok = ok & (v[j] == r[j]) & (v.at(j) == r[j]) & (c.at(j) == r[j]); ASSERT(ok, "nothing changes, and inside it does not throw"); }
ENTRY(E01_dac, E1 "at() of DacVectors of 0..2 elements of 1, 9 and 64 bits, any index that is out of range") { static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 2); std::vector<uint64_t> u(n); for (auto &x : u) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } const DacVector d(u); uint64_t i = sym_u64(); ASSUME(i >= n);
  ASSERT(refused([&] { OBS(d.at(i)); }), "at() outside throws"); bool ok = d.size() == n; for (size_t j = 0; ok && j < n; j++) ok = ok & (d[j] == u[j]) & (d.at(j) == u[j]); ASSERT(ok, "nothing changes, and inside it does not throw"); }
template <class T> static void width(T &t, bool fixed) { MERGE(0); size_t n = sym_pick(fixed ? 0 : 1, 3); static const uint64_t K[] = {3, 77, 1023}; std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) { v[i] = sym_u8(); t.set(K[i], v[i]); } size_t w = sym_pick(1, 64), b = t.bucket();
  ASSERT(refused([&] { t.set_value_width(w); }), "the width of values that are there, or are fixed, cannot be chosen"); bool ok = t.size() == n && t.bucket() == b && !t.get(5).first; for (size_t i = 0; ok && i < n; i++) { auto r = t.get(K[i]); if (!r.first) ok = false; else ok = ok & (r.second == v[i]); } ASSERT(ok, "nothing changes"); t.set(5, 255); auto r = t.get(5); ASSERT(r.first && r.second == 255, "the table goes on"); }
ENTRY(E01_width, E1 "set_value_width(1..64) on tables of 1..3 keys and on tables with fixed widths of 0..3 keys, any 8-bit values") { if (sym_pick(0, 1)) { CHT<8> t(10); width(t, true); } else { CHT<0> t(10); t.set_value_width(8); width(t, false); } }
ENTRY(E01_width_again, E1 "set_value_width on an empty table is granted, any number of times, widths 1, 8, 33, 64") { static const size_t W[] = {1, 8, 33, 64}; CHT<0> t(10); size_t a = sym_pick(0, 3), b = sym_pick(0, 3); t.set_value_width(W[a]); t.set_value_width(W[b]); uint64_t v = sym_bits(W[b]); t.set(9, v); auto r = t.get(9); ASSERT(r.first && r.second == v && t.size() == 1, "the last width chosen holds"); }
ENTRY(E01_select, E1 "select on vectors built without select, of 0, 1, 64, 260 bits, any rank") { static const size_t N[] = {1, 0, 64, 260}; size_t n = N[sym_pick(0, 3)]; uint64_t w = sym_u64(); BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = i < 6 ? (w >> i) & 1 : mix(i) & 1; SuccinctBitVector<false> v(b); uint64_t k = sym_u64(); ASSERT(refused([&] { OBS(v.select(k)); }), "select without its index throws"); bool ok = v.size() == n; size_t c = 0; for (size_t i = 0; ok && i < n; i++) { ok = ok & (v[i] == (bool)b[i]) & (v.rank(i) == c); c += (bool)b[i]; } ASSERT(ok, "nothing changes"); }

// ---- E02
ENTRY(E02_bitvector, E2 "the 1st..2nd, in push_back, resize, reserve, assign of BitVectors of 0, 1, 64, 128 bits, any first word") { MERGE(1); Leaks l; static const size_t N[] = {1, 0, 64, 128}; size_t n = N[sym_pick(0, 3)], op = sym_pick(0, 3), k = sym_pick(1, 2); uint64_t w = sym_u64(); bool x = sym_bool(); { BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = (w >> (i % 64)) & 1; b.shrink_to_fit();
  auto holds = [&](size_t m) { return [&, m](const BitVector &v) { if (v.size() != m) return false; bool ok = true; for (size_t i = 0; i < m; i++) ok = ok & (v[i] == (i < n ? (bool)((w >> (i % 64)) & 1) : x)); return ok; }; }; auto old = holds(n);
  if (op == 0) { if (n % 64 == 0) struck(b, k, [&](BitVector &v) { v.push_back(x); }, old, holds(n + 1)); } else if (op == 1) struck(b, k, [&](BitVector &v) { v.resize(n + 130, x); }, old, holds(n + 130)); else if (op == 2) struck(b, k, [&](BitVector &v) { v.reserve(n + 200); }, old, old); else struck(b, k, [&](BitVector &v) { v.assign(300, x); }, old, [&](const BitVector &v) { if (v.size() != 300) return false; bool ok = true; for (size_t i = 0; i < 300; i++) ok = ok & (v[i] == x); return ok; }); } l.none(); }
ENTRY(E02_fit, E2 "the 1st..2nd, in push_back, resize, reserve, assign of FitVectors of widths 1, 7, 64 and 0, 1, 64 elements, any values") { MERGE(0); Leaks l; static const size_t W[] = {1, 7, 64}, N[] = {1, 0, 64}; size_t w = W[sym_pick(0, 2)], n = N[sym_pick(0, 2)], op = sym_pick(0, 3), k = sym_pick(1, 2); uint64_t c = sym_bits(w), x = sym_bits(w); { FitVector b(w, n, c);
  auto holds = [&](size_t m) { return [&, m](const FitVector &v) { if (v.size() != m || v.unit_width() != w) return false; bool ok = true; for (size_t i = 0; i < m; i++) ok = ok & (v[i] == (i < n ? c : x)); return ok; }; }; auto old = holds(n);
  if (op == 0) struck(b, k, [&](FitVector &v) { v.push_back(x); }, old, holds(n + 1)); else if (op == 1) struck(b, k, [&](FitVector &v) { v.resize(n + 130, x); }, old, holds(n + 130)); else if (op == 2) struck(b, k, [&](FitVector &v) { v.reserve(n + 700); }, old, old); else struck(b, k, [&](FitVector &v) { v.assign(300, x); }, old, [&](const FitVector &v) { if (v.size() != 300) return false; bool ok = true; for (size_t i = 0; i < 300; i++) ok = ok & (v[i] == x); return ok; }); } l.none(); }
ENTRY(E02_multiple, E2 "the 1st..2nd, in push_back, resize, reserve of MultipleVectors of fields of 1, 3, 8 bytes and 0..2 blocks, any values") { MERGE(0); Leaks l; size_t n = sym_pick(0, 2), op = sym_pick(0, 2), k = sym_pick(1, 2); uint64_t a = sym_u8(), b = sym_bits(24), c = sym_u64(); { MultipleVector m({1, 3, 8}); for (size_t i = 0; i < n; i++) m.push_back({a, b, c});
  auto holds = [&](size_t t) { return [&, t](const MultipleVector &v) { if (v.size() != t) return false; bool ok = true; for (size_t i = 0; i < t; i++) ok = ok & (v.nested_element<0>(i) == a) & (v.nested_element<1>(i) == b) & (v.nested_element<2>(i) == c); return ok; }; }; auto old = holds(n);
  if (op == 0) struck(m, k, [&](MultipleVector &v) { v.push_back({a, b, c}); }, old, holds(n + 1)); else if (op == 1) struck(m, k, [&](MultipleVector &v) { v.resize(n + 9, {a, b, c}); }, old, holds(n + 9)); else struck(m, k, [&](MultipleVector &v) { v.reserve(n + 50); }, old, old); } l.none(); }
ENTRY(E02_multibit, E2 "the 1st..2nd, in set of 2-bit symbols, 0..3 of them and 30, any symbols; then the build") { MERGE(0); Leaks l; static const size_t N[] = {1, 0, 2, 3, 30}; size_t n = N[sym_pick(0, 4)], at = n + (sym_pick(0, 1) ? 40 : 0), k = sym_pick(1, 2); uint64_t x = sym_range(1, 3); uint64_t r[2] = {sym_bits(2), sym_bits(2)}; { MultiBitVector<2> m; for (size_t i = 0; i < n; i++) m.set(i, i < 2 ? r[i] : i % 4);
  auto old = [&](const MultiBitVector<2> &v) { bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (v[i] == (i < 2 ? r[i] : i % 4)); return ok; }; struck(m, k, [&](MultiBitVector<2> &v) { v.set(at, x); }, old, [&](const MultiBitVector<2> &v) { return old(v) && v[at] == x; }); m.build(); ASSERT(old(m) && m[at] == x, "after the build"); } l.none(); }
ENTRY(E02_heap, E2 "the 1st..2nd, in push on heaps of 0..4 8-bit elements, compared in every order") { MERGE(0); Leaks l; size_t n = sym_pick(0, TIER(3, 4)), k = sym_pick(1, 2); { std::vector<uint64_t> u(n + 1); for (auto &x : u) x = sym_u8(); std::vector<uint64_t> s(u.begin(), u.end() - 1); MaxHeap h(s);
  auto holds = [&](size_t m) { return [&, m](const MaxHeap &x) { if (x.size() != m) return false; bool ok = true; uint64_t sum = 0, bits = 0; for (size_t i = 0; i < m; i++) { sum += x.value(i + 1) - u[i]; bits ^= x.value(i + 1) ^ u[i]; if (i) ok = ok & (x.value(i + 1) <= x.value((i + 1) / 2)); } return (bool)(ok & (sum == 0) & (bits == 0)); }; };
  struck(h, k, [&](MaxHeap &x) { x.push(u[n]); }, holds(n), holds(n + 1)); } l.none(); }
template <unsigned V> static void table(CHT<V> t, size_t K) { typedef CHT<V> T; static const uint64_t U[] = {3, 77, 1023, 512, 40}; size_t n = sym_pick(0, 4), op = sym_pick(0, 3), k = sym_pick(1, K); uint64_t v[5]; for (size_t i = 0; i < 5; i++) v[i] = sym_u8(); for (size_t i = 0; i < n; i++) t.set(U[i], v[i]); if (n == 4 && op == 3) t.erase(U[1]); bool gone = n == 4 && op == 3;
  auto holds = [&](size_t m, size_t less) { return [&, m, less](const T &x) { bool ok = x.size() == m - gone - (less < 5); for (size_t i = 0; i < 5; i++) { auto r = x.get(U[i]); if (r.first != (i < m && i != less && !(gone && i == 1))) return false; if (r.first) ok = ok & (r.second == v[i]); } return ok; }; }; auto old = holds(n, 9);
  if (op == 0 || op == 3) struck(t, k, [&](T &x) { x.set(U[n], v[n]); }, old, holds(n + 1, 9)); else if (op == 1) struck(t, k, [&](T &x) { x.reserve(20); }, old, old); else if (n) struck(t, k, [&](T &x) { x.erase(U[0]); }, old, holds(n, 0)); }
ENTRY(E02_table, E2 "the 1st..8th, in set, reserve and erase of hash tables of 0..4 keys (growing and shrinking included), any 8-bit values") { MERGE(0); STEPS(4000000); Leaks l; if (sym_pick(0, 1)) table<8>(CHT<8>(10), 8); else { CHT<0> t(10); t.set_value_width(8); table<0>(t, 8); } l.none(); }
ENTRY(E02_cdrw_array, E2 "the 1st..12th, in set of CDRWArrays of 7 elements, 4 (thorough 2..5) of them of 9 bits and one of 1 bit; values of 1, 9, 64 bits and 0 at 4 indices") { MERGE(0); STEPS(20000000); Leaks l; static const size_t L[] = {9, 1, 64, 0}; size_t n = 7, m = sym_pick(TIER(4, 2), TIER(4, 5)), k = sym_pick(1, 12), at = sym_pick(0, 3), len = L[sym_pick(0, 3)]; at = at == 3 ? 6 : at == 2 ? 5 : at == 1 ? m - 1 : 0; uint64_t x = len ? 1ull << (len - 1) | (len > 1 ? sym_bits(len - 1) : 0) : 0; { CDRWArray a(n); std::vector<uint64_t> r(n); for (size_t i = 0; i < m; i++) { r[i] = 256 | sym_u8(); a.set(i, r[i]); } if (m < 6) { r[5] = 1; a.set(5, 1); }
  auto holds = [&](bool now) { return [&, now](const CDRWArray &v) { bool ok = v.size() == n; for (size_t i = 0; ok && i < n; i++) ok = ok & (v.get(i) == (now && i == at ? x : r[i])); return ok; }; }; struck(a, k, [&](CDRWArray &v) { v.set(at, x); }, holds(false), holds(true)); } l.none(); }
template <class P> static void strike_vector(P pickK) { MERGE(0); STEPS(40000000); Leaks l; size_t n = sym_pick(0, TIER(3, 5)), op = sym_pick(0, 4), k = pickK(); n = n == 3 ? 4 : n; size_t len = sym_pick(0, 1) ? 9 : 64; uint64_t x = 1ull << (len - 1) | sym_bits(len - 1); { CDRWVector a; std::vector<uint64_t> r(n); for (auto &y : r) { y = 256 | sym_u8(); a.push_back(y); }
  auto holds = [&](size_t m) { return [&, m](const CDRWVector &v) { bool ok = v.size() == m; for (size_t i = 0; ok && i < std::min(m, n); i++) ok = ok & (v.get(i) == r[i]); if (ok && m > n && op == 0) ok = ok & (v.get(n) == x); return ok; }; }; auto old = holds(n);
  if (op == 0) struck(a, k, [&](CDRWVector &v) { v.push_back(x); }, old, holds(n + 1)); else if (op == 1) struck(a, k, [&](CDRWVector &v) { v.reserve(16); }, old, old); else if (op == 2) struck(a, k, [&](CDRWVector &v) { v.resize(16); }, old, holds(16)); else if (op == 3) struck(a, k, [&](CDRWVector &v) { v.shrink_to_fit(); }, old, old); else if (n) { a.reserve(32); struck(a, k, [&](CDRWVector &v) { v.pop_back(); }, old, holds(n - 1)); } } l.none(); }
ENTRY(E02_cdrw, E2 "every 41st from the 3rd to the 413th, in push_back, reserve, resize, shrink_to_fit and pop_back of CDRWVectors of 0, 1, 2, 4 (thorough 0..5) elements, values of 9 and 64 bits") { strike_vector([] { return 3 + 41 * sym_pick(0, 10); }); }
ENTRY(E02_cdrw_first, E2 "the 1st..4th, in push_back, reserve, resize, shrink_to_fit and pop_back of CDRWVectors of 0, 1, 2, 4 (thorough 0..5) elements, values of 9 and 64 bits") { strike_vector([] { return sym_pick(1, 4); }); }
ENTRY(E02_cdrw_spare, E2 "the 1st..8th, in push_back and set on CDRWVectors of 3..5 elements of 9 bits with room for more, values of 1, 9 and 64 bits") { MERGE(0); STEPS(40000000); Leaks l; static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(3, 5), k = sym_pick(1, 8), len = L[sym_pick(0, 2)]; bool push = sym_pick(0, 1); uint64_t x = 1ull << (len - 1) | (len > 1 ? sym_bits(len - 1) : 0); { CDRWVector a; a.reserve(8); std::vector<uint64_t> r(n); for (auto &y : r) { y = 256 | sym_u8(); a.push_back(y); }
  auto holds = [&](bool now) { return [&, now](const CDRWVector &v) { bool ok = v.size() == n + (push && now) && v.capacity() >= v.size(); for (size_t i = 0; ok && i < n; i++) ok = ok & (v.get(i) == (now && !push && i == 1 ? x : r[i])); if (ok && push && now) ok = v.get(n) == x; return ok; }; };
  if (push) struck(a, k, [&](CDRWVector &v) { v.push_back(x); }, holds(false), holds(true)); else struck(a, k, [&](CDRWVector &v) { v.set(1, x); }, holds(false), holds(true)); } l.none(); }
ENTRY(E02_trie, E2 "the 1st..12th, in insert of one of 6 keys into a trie of 0..3 keys, any items") { MERGE(0); Leaks l; typedef graph_util::Trie<uint64_t> T; static const char *U[] = {"ab", "b", "", "abcd", "a", "xy"}; size_t n = sym_pick(0, 3), at = sym_pick(0, 5), k = sym_pick(1, 12); uint64_t v[3] = {sym_u64(), sym_u64(), sym_u64()}, x = sym_u64(); { T t; for (size_t i = 0; i < n; i++) t.insert(U[i], v[i]);
  auto holds = [&](bool now) { return [&, now](T &s) { bool ok = true; for (size_t i = 0; i < 6; i++) { uint64_t *p = s.traverse(U[i]); bool in = i < n || (now && i == at); if ((p != nullptr) != in) return false; if (in) ok = ok & (*p == (now && i == at ? x : v[i])); } size_t m = 0; s.dfs([&](const auto &, size_t) { m++; }); return (bool)(ok & (m <= s.size())); }; };
  struck(t, k, [&](T &s) { s.insert(U[at], x); }, holds(false), holds(true)); } l.none(); }
// building, copying, saving and loading
template <class S, class F> static void whole(size_t K, F make) { char mem[40000]; VStream v(mem, sizeof mem); { S s = make(); s.Write(v.os()); } built(K, [&]() -> uint64_t { v.rewind(); S a = make(), b(a), c; c = b; S d(std::move(b)); d = c; S e; if constexpr (std::is_same_v<S, FitVector>) e = S(v.is()); else e.Read(v.is()); return e.size_in_bytes() + d.size_in_bytes(); }); }
static BitVector pattern(size_t n) { BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = mix(i) & 1; return b; }
ENTRY(E02_build_bits, E2 "the 1st..20th, while rank and select vectors of 0, 70, 600 bits are built, copied, moved, assigned and (where they can be saved) loaded") { MERGE(0); static const size_t N[] = {70, 0, 600}; size_t n = N[sym_pick(0, 2)]; BitVector b = pattern(n); if (sym_pick(0, 1)) whole<SuccinctBitVector<true>>(20, [&] { return SuccinctBitVector<true>(b); }); else whole<SuccinctBitVector<false>>(20, [&] { return SuccinctBitVector<false>(b); }); }
ENTRY(E02_build_arrays, E2 "the 1st..40th, while FitVectors, DacVectors, wavelet trees and multi-bit vectors are built, copied, moved, assigned and (where they can be saved) loaded") { MERGE(0); STEPS(4000000); std::vector<uint64_t> u{1, 300, 1ull << 40, 7, 0}; std::vector<uint8_t> s{2, 3, 7, 4}; switch (sym_pick(0, 4)) { case 0: whole<FitVector>(10, [&] { return FitVector(33, 5, 7); }); break; case 1: whole<DacVector>(40, [&] { return DacVector(u); }); break; case 2: whole<DacVector>(40, [&] { return DacVector(u, std::vector<size_t>{8, 56}); }); break;
  case 3: whole<MultiBitVector<2>>(20, [&] { MultiBitVector<2> m; for (size_t i = 0; i < 40; i++) m.set(i, i % 4); m.build(); return m; }); break; default: built(40, [&]() -> uint64_t { WaveletTree a(s), b(a); a = b; WaveletTree c(std::move(b)); return c.size_in_bytes(); }); } }
ENTRY(E02_build_tables, E2 "the 1st..12th, while hash tables, heaps, MultipleVectors, initialisable arrays and tries are built, copied, moved, assigned and (where they can be saved) loaded") { MERGE(0); STEPS(4000000); switch (sym_pick(0, 4)) { case 0: built(12, [&]() -> uint64_t { CHT<8> a(10), b(a); a = b; CHT<8> c(std::move(b)); c.set(1, 2); return c.size(); }); break; case 1: built(12, [&]() -> uint64_t { MaxHeap a(std::vector<uint64_t>{1, 2, 3}), b(a); a = b; MaxHeap c(std::move(b)); return c.front(); }); break; case 2: built(12, [&]() -> uint64_t { MultipleVector a({1, 3, 8}), b(a); a.push_back({1, 2, 3}); b = a; MultipleVector c(std::move(b)); return c.size(); }); break;
  case 3: built(12, [&]() -> uint64_t { InitializableArrayFolklore<uint32_t> a((size_t)6, 1u), b(a); a.set(3, 4); b = a; InitializableArrayFolklore<uint32_t> c(std::move(b)); return c.get(3); }); break; default: built(12, [&]() -> uint64_t { graph_util::Trie<uint64_t> a; a.insert("ab", 1); graph_util::Trie<uint64_t> b(a); a = b; return a.size(); }); } }
ENTRY(E02_build_cdrw, E2 "the 1st..2nd and every 29th up to the 580th, while CDRWArrays and CDRWVectors of 3 elements are built, copied and assigned") { MERGE(0); STEPS(40000000); size_t k = sym_pick(1, 22); k = k > 2 ? (k - 2) * 29 : k; std::vector<uint64_t> u{1, 300, 7}; bool array = sym_pick(0, 1); size_t before = LIVE(); auto f = [&]() -> uint64_t { if (array) { CDRWArray a(u.begin(), u.end()), b(a); b.set(1, 2); a = b; return a.get(1); } CDRWVector a; for (auto x : u) a.push_back(x); CDRWVector b(a); b.pop_back(); a = b; return a.get(1); }; FAIL_AT(k); try { f(); } catch (...) { } FAIL_AT(0); ASSERT(LIVE() == before, "nothing leaks when an allocation fails"); OBS(f()); ASSERT(LIVE() == before, "nothing leaks"); }
typedef std::vector<std::string> Keys;
ENTRY(E02_build_strings, E2 "the 1st..300th, while Samc, SamcDict, factor oracles, suffix arrays and matchers of small keys are built, copied and used") { MERGE(0); STEPS(8000000); Keys k{"", "a", "ab", "b"}; switch (sym_pick(0, 4)) { case 0: whole<Samc<uint32_t, false>>(TIER(100, 300), [&] { return Samc<uint32_t, false>(k.begin(), k.end()); }); break; case 1: whole<SamcDict<uint32_t>>(TIER(100, 300), [&] { return SamcDict<uint32_t>(k.begin(), k.end()); }); break; case 2: built(60, [&]() -> uint64_t { FactorOracle a(std::string("abab")), b(a); a = b; return a.accept("ba"); }); break; case 3: built(120, [&]() -> uint64_t { SuffixArray a(std::string("abab")), b(a); a = b; return 1; }); break;
  default: { static const char *K[] = {"ab", "aba"}; const char *key = K[sym_pick(0, 1)]; std::string_view t("babab"); switch (sym_pick(0, 6)) { 
#define EM(i, M) case i: built(20, [&]() -> uint64_t { pattern_matching::M m{std::string_view(key)}; return m.find_all(t).size(); }); break;
    EM(0, Simple) EM(1, Kmp) EM(2, Bm) EM(3, Bom) EM(4, TurboBom) EM(5, SundayQS) EM(6, SundayMS) } } } }
