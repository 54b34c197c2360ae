// R03: the saved bytes depend on nothing but the operations applied. Memory the code never wrote is a fresh unknown in the
// engine, so bytes that come from it differ between two saves.
#include "vstream.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
using namespace sim_ds;
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
template <class S> static auto put(const S &s, std::ostream &os) -> decltype(s.Write(os)) { s.Write(os); }
static void put(const MultipleVector &s, std::ostream &os) { s.StoreTo(os); }
template <class S> static void get(S &s, std::istream &is) { s.Read(is); }
static void get(FitVector &s, std::istream &is) { s = FitVector(is); }
static void get(MultipleVector &s, std::istream &is) { s.LoadFrom(is); }
static bool same(VStream &a, VStream &b) { size_t n = a.written(); if (b.written() != n) return false; bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (a.byte(i) == b.byte(i)); return ok; }
// make: builds the object; other: an object of different content
template <class S, class M> static void bytes(M make, const S &other, size_t cap = 8192) {
  S a(make()); VStream va(cap); put(a, va.os()); VStream vb(cap); { S b(make()); put(b, vb.os()); } ASSERT(same(va, vb), "the same operations on another object save the same bytes");
  VStream vc(cap); put(a, vc.os()); ASSERT(same(va, vc), "saving again saves the same bytes");
  VStream vd(cap), ve(cap); { S c(a), d(other); put(c, vd.os()); d = c; put(d, ve.os()); S e(std::move(d)); VStream vf(cap); put(e, vf.os()); ASSERT(same(va, vf), "an object moved to saves the same bytes"); } ASSERT(same(va, vd) && same(va, ve), "a copy saves the same bytes");
  S r(other); get(r, va.is()); VStream vg(cap); put(r, vg.os()); ASSERT(same(vb, vg), "what was read back saves the same bytes"); OBS(va.written()); }
#define B "saved after the same operations on two objects, again, from copies, after a move, and after reading back: "
ENTRY(R03_bitvector, B "BitVectors of 0..200 bits, any first word, after every history of 2 out of push_back, resize, fill, assign, erasing the end") { MERGE(1); static const size_t N[] = {1, 0, 64, 65, 200}; size_t n = N[sym_pick(0, 4)], op[2], to[2]; uint64_t c = sym_u64(); bool x = sym_bool(); for (int k = 0; k < 2; k++) { op[k] = sym_pick(0, 4); static const size_t T[] = {3, 64, 130}; to[k] = op[k] == 1 || op[k] == 3 ? T[sym_pick(0, 2)] : 0; }
  bytes<BitVector>([&] { BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = i < 64 ? (c >> i) & 1 : mix(i) & 1; for (int k = 0; k < 2; k++) switch (op[k]) { case 0: b.push_back(x); break; case 1: b.resize(to[k]); break; case 2: if (b.size()) b.fill(b.begin(), b.end() - 1, x); break; case 3: b.assign(to[k], x); break; case 4: if (b.size()) b.resize(b.size() - 1); b.shrink_to_fit(); } return b; }, BitVector((size_t)300, true)); }
template <bool S> static void succinct() { static const size_t N[] = {1, 0, 64, 260, 600}; size_t n = N[sym_pick(0, 4)]; uint64_t c = sym_u64(); BitVector b(n); for (size_t i = 0; i < n; i++) b[i] = i < 6 ? (c >> i) & 1 : mix(i) & 1; typedef SuccinctBitVector<S> V; bytes<V>([&] { return V(b); }, V(BitVector((size_t)700, true))); }
ENTRY(R03_succinct, B "rank and select vectors of 0..600 bits, any first 6 bits") { if (sym_pick(0, 1)) succinct<true>(); else succinct<false>(); }
ENTRY(R03_fit, B "FitVectors of widths 1, 7, 33, 64 and 0..5 elements, any values, after every history of 2 out of push_back, resize, assign, shrinking, a write") { MERGE(0); static const size_t W[] = {1, 7, 33, 64}; size_t w = W[sym_pick(0, 3)], n = sym_pick(0, 3), op[2]; uint64_t x = sym_bits(w), c[3] = {0, 0, 0}; for (size_t i = 0; i < n; i++) c[i] = sym_bits(w); for (auto &o : op) o = sym_pick(0, 4);
  bytes<FitVector>([&] { FitVector v(w, n, x); for (size_t i = 0; i < n; i++) v[i] = c[i]; for (size_t o : op) switch (o) { case 0: v.push_back(x); break; case 1: v.resize(5); break; case 2: v.assign(4, x); break; case 3: if (v.size()) v.resize(v.size() - 1); break; case 4: if (v.size()) v[v.size() - 1] = x; } return v; }, FitVector(9, 40, 3)); }
ENTRY(R03_multiple, B "MultipleVectors of fields of 1, 3, 8 bytes, 0..2 blocks, any values, then resized to 0..3 blocks") { MERGE(0); size_t n = sym_pick(0, 2), m = sym_pick(0, 3); uint64_t c[2][3]; for (size_t i = 0; i < n; i++) { c[i][0] = sym_u8(); c[i][1] = sym_bits(24); c[i][2] = sym_u64(); }
  MultipleVector o({2, 3}); o.push_back({4, 5}); bytes<MultipleVector>([&] { MultipleVector v({1, 3, 8}); for (size_t i = 0; i < n; i++) v.push_back({c[i][0], c[i][1], c[i][2]}); v.resize(m); v.emplace_back(); return v; }, o); }
template <unsigned U> static void multibit() { static const size_t N[] = {1, 30, 300}; size_t n = N[sym_pick(0, 2)]; uint8_t c[4]; for (auto &x : c) x = sym_bits(U); typedef MultiBitVector<U> V; V o; for (size_t i = 0; i < 400; i++) o.set(i, 1); o.build(); bool again = sym_pick(0, 1); bytes<V>([&] { V v; if (again) v = o; for (size_t i = 0; i < n; i++) v.set(i, i < 4 ? c[i] : mix(i) % (1u << U)); v.build(); return v; }, o); }
ENTRY(R03_multibit, B "symbols of 1..3 bits, 1, 30, 300 of them, the first 4 symbolic, into an empty and a filled object") { size_t u = sym_pick(1, 3); if (u == 1) multibit<1>(); else if (u == 2) multibit<2>(); else multibit<3>(); }
ENTRY(R03_dac, B "DacVectors of 0..3 elements of 1, 9 and 64 bits, any values of that length, automatic and 2 fixed layers") { MERGE(0); static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 3); std::vector<uint64_t> u(n); for (auto &x : u) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } bool layers = sym_pick(0, 1); bytes<DacVector>([&] { return layers ? DacVector(u, std::vector<size_t>{8, 56}) : DacVector(u); }, DacVector(std::vector<uint64_t>{5, 1000000, 3, 1ull << 60})); }
ENTRY(R03_wavelet, B "wavelet trees of 0..3 2-bit symbols with any content, of one of 4 7-bit symbols and of 300 symbols") { MERGE(0); size_t n = sym_pick(0, 5), top = n == 4 ? 7 : 2; std::vector<uint8_t> s(n == 4 ? 1 : n == 5 ? 300 : n); for (auto &x : s) x = n == 5 ? 0 : n == 4 ? 64 + 21 * sym_pick(0, 3) : 2 | sym_bits(1); if (n == 5) for (size_t i = 0; i < 300; i++) s[i] = mix(i) & 31; bytes<WaveletTree>([&] { return WaveletTree(s); }, WaveletTree(std::vector<uint8_t>{200, 3, 77}), 32768); }
typedef std::vector<std::string> Keys;
static Keys subset() { Keys k; static const char *U[] = {"a", "", "ab", "\x80\xfe", "abc"}; size_t m = sym_pick(1, 31); for (int i = 0; i < 5; i++) if (m >> i & 1) k.push_back(U[i]); std::sort(k.begin(), k.end()); return k; }
static const Keys OTHER{"ab", "abcdef", "x"};
template <class T> static void trie() { Keys k = subset(); bytes<T>([&] { return T(k.begin(), k.end()); }, T(OTHER.begin(), OTHER.end()), 16384); }
ENTRY(R03_samc, B "Samc of any non-empty subset of 5 keys, both builders, SamcDict") { MERGE(0); STEPS(8000000); switch (sym_pick(0, 2)) { case 0: trie<Samc<uint32_t, false>>(); break; case 1: trie<Samc<uint32_t, true>>(); break; default: trie<SamcDict<uint32_t>>(); } }
ENTRY(R03_suffix, B "suffix arrays of words of 0..5 letters of {a, b}") { MERGE(0); STEPS(8000000); size_t n = sym_pick(0, 5); std::string t(n, 'a'); for (auto &c : t) c = "ab"[sym_pick(0, 1)]; bytes<SuffixArray>([&] { return SuffixArray(t); }, SuffixArray(std::string("mississippi"))); }
