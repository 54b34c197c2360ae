// Q01: queries write to nothing but their own locals. Q02: building, changing and destroying one object writes to no memory
// that existed before it. Everything outside the stack is write-protected while the operations run, so one run of a query
// stands for every interleaving of queries: readers that write nothing cannot disturb each other.
#include "vstream.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/Heap.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/CDRWArray.hpp>
#include <sim_ds/InitializableArray.hpp>
#include <sim_ds/BijectiveHash.hpp>
#include <sim_ds/sort.hpp>
#include <sim_ds/calc.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/PatternMatching.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/graph_util.hpp>
using namespace sim_ds;
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
struct Fold { uint64_t v = 0; Fold &operator<<(uint64_t x) { v = (v << 9 | v >> 55) ^ x; return *this; } };
// the question is asked for the first time while the memory is shared, then again
template <class Q> static void asked(Q q) { FREEZE(); uint64_t r = q(); THAW(); uint64_t again = q(); ASSERT(r == again, "the same question has the same answer"); OBS(r); }
template <class S> static std::unique_ptr<S> made(const S &s) { return std::unique_ptr<S>(new S(s)); }
// saving, copying and comparing are queries too
template <class S> static void saved(const S &s) { char mem[TIER(40000, 40000)]; { VStream v(mem, sizeof mem); std::ostream &os = v.os(); FREEZE(); s.Write(os); size_t b = s.size_in_bytes(); THAW(); OBS(b); ASSERT(v.written() > 0, "saved while shared"); } }
template <class S> static void copied(const S &s) { FREEZE(); { S c(s); S d; d = c; } THAW(); }
#define Q1 "every query of a structure on the heap, with nothing but the stack writable: "

// ---- Q01
ENTRY(Q01_bitvector, Q1 "BitVectors of 0, 1, 64, 65, 200 bits, any first word, any index") { static const size_t N[] = {1, 0, 64, 65, 200}; size_t n = N[sym_pick(0, 4)]; std::unique_ptr<BitVector> p(new BitVector(n)); BitVector &w = *p; uint64_t c = sym_u64(); for (size_t i = 0; i < n; i++) w[i] = i < 64 ? (c >> i) & 1 : mix(i) & 1; const BitVector &b = w; size_t i = n ? sym_below(n) : 0;
  asked([&] { Fold f; f << b.size() << b.empty() << b.size_in_bytes(); if (n) { f << b[i] << b.at(i) << b.front() << b.back() << *(b.begin() + i) << *b.data(); try { f << b.at(n); } catch (...) { f << 7; } } return f.v; });
  asked([&] { uint64_t k = 0; for (auto x : b) k += (bool)x; for (size_t j = 0; j < n; j++) k += (bool)w[j]; return k; }); saved(b); copied(b); }
template <bool S> static void succinct() { static const size_t N[] = {1, 0, 64, 260, 700}; size_t n = N[sym_pick(0, 4)]; uint64_t c = sym_u64(); BitVector b(n); size_t ones = 0; for (size_t i = 0; i < n; i++) b[i] = i < 6 ? (c >> i) & 1 : mix(i) & 1; for (size_t i = 6; i < n; i++) ones += mix(i) & 1; typedef SuccinctBitVector<S> V; auto p = made(V(b)); const V &v = *p; size_t i = n ? sym_below(n) : 0, k = ones ? sym_below(ones) : 0;
  asked([&] { Fold f; f << v.size() << v.size_in_bytes() << v.num_blocks(); if (n) f << v[i] << v.rank(i) << v.rank_0(i) << v.rank_1(i) << v.rank(n); return f.v; }); if (S && ones) asked([&] { return v.select(k); }); saved(v); copied(v); }
ENTRY(Q01_rank, Q1 "rank vectors of 0..700 bits, any first 6 bits, any index") { succinct<false>(); }
ENTRY(Q01_select, Q1 "select vectors of 0..700 bits, any first 6 bits, any index and any rank") { succinct<true>(); }
ENTRY(Q01_fit, Q1 "FitVectors of widths 1, 7, 33, 64 and 0, 1, 5, 40 elements, any values, any index") { static const size_t W[] = {1, 7, 33, 64}, N[] = {1, 0, 5, 40}; size_t w = W[sym_pick(0, 3)], n = N[sym_pick(0, 3)]; auto p = made(FitVector(w, n, 0)); for (size_t i = 0; i < n; i++) (*p)[i] = i < 5 ? sym_bits(w) : mix(i) >> (64 - w); const FitVector &v = *p; size_t i = n ? sym_below(n) : 0;
  asked([&] { Fold f; f << v.size() << v.empty() << v.unit_width() << v.size_in_bytes(); if (n) { f << v[i] << v.at(i) << v.front() << v.back(); try { f << v.at(n); } catch (...) { f << 7; } } return f.v; }); saved(v); copied(v); }
ENTRY(Q01_multiple, Q1 "MultipleVectors of fields of 1, 3, 8 bytes, 0..3 blocks, any values, any index") { MERGE(0); size_t n = sym_pick(0, 3); std::unique_ptr<MultipleVector> p(new MultipleVector({1, 3, 8})); for (size_t i = 0; i < n; i++) { uint64_t a = sym_u8(), b = sym_bits(24), c = sym_u64(); p->push_back({a, b, c}); } const MultipleVector &v = *p; size_t i = n ? sym_pick(0, n - 1) : 0;
  asked([&] { Fold f; f << v.size() << v.block_size() << v.element_size(1) << v.size_in_bytes(); if (n) f << v.nested_element<0>(i) << v.nested_element<1>(i) << v.nested_element<2>(i) << v.block(i).get<1>() << v.block(i).template restricted_get<0, uint8_t>(); return f.v; }); }
template <unsigned U> static void multibit() { static const size_t N[] = {1, 30, 300}; size_t n = N[sym_pick(0, 2)]; typedef MultiBitVector<U> V; std::unique_ptr<V> p(new V); for (size_t i = 0; i < n; i++) p->set(i, i < 4 ? sym_bits(U) : mix(i) % (1u << U)); p->build(); const V &v = *p; size_t i = sym_pick(0, std::min<size_t>(n, 6) - 1); if (n > 6 && i == 5) i = n - 1;
  asked([&] { Fold f; f << v[i] << v.size_in_bytes(); return f.v; }); if (i > 3) asked([&] { return v[i] ? v.rank(i) : 0; }); else { uint8_t s = v[i]; for (uint8_t c = 1; c < (1u << U); c++) if (s == c) asked([&] { return v.rank(i); }); } saved(v); copied(v); }
ENTRY(Q01_multibit, Q1 "symbols of 1..3 bits, 1, 30, 300 of them, the first 4 symbolic, six indices") { MERGE(0); size_t u = sym_pick(1, 3); if (u == 1) multibit<1>(); else if (u == 2) multibit<2>(); else multibit<3>(); }
ENTRY(Q01_dac, Q1 "DacVectors of 0..3 elements of 1, 9 and 64 bits, any values of that length, any index") { MERGE(0); static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 3); std::vector<uint64_t> u(n); for (auto &x : u) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } auto p = made(DacVector(u)); const DacVector &v = *p; size_t i = n ? sym_pick(0, n - 1) : 0;
  asked([&] { Fold f; f << v.size() << v.empty() << v.num_layers() << v.size_in_bytes(); if (n) { f << v[i] << v.at(i) << v.front() << v.back() << v.depth(i) << *(v.begin() + i); try { f << v.at(n); } catch (...) { f << 7; } } for (auto x : v) f << x; return f.v; }); saved(v); copied(v); }
ENTRY(Q01_wavelet, Q1 "wavelet trees of 0..3 2-bit symbols with any content and of one of 4 7-bit symbols, any index and symbol") { MERGE(0); size_t n = sym_pick(0, 4), top = n == 4 ? 7 : 2; std::vector<uint8_t> s(n == 4 ? 1 : n); for (auto &x : s) x = n == 4 ? 64 + 21 * sym_pick(0, 3) : 2 | sym_bits(1); auto p = made(WaveletTree(s)); const WaveletTree &v = *p; n = s.size(); size_t i = n ? sym_pick(0, n - 1) : 0; uint8_t c = sym_u8(); 
  asked([&] { Fold f; f << v.size() << v.size_in_bytes(); if (n) { f << v[i] << v.rank(i) << v.rank(c, i) << v.rank(c, n); auto r = v.AccessAndRank(i); f << r.first << r.second; } return f.v; }); saved(v); FREEZE(); { WaveletTree c(v); } THAW(); }
ENTRY(Q01_heap, Q1 "heaps of 1..4 16-bit elements, any order") { MERGE(1); size_t n = sym_pick(1, 4); std::vector<uint64_t> u(n); for (auto &x : u) x = sym_u16(); auto p = made(MaxHeap(u)); const MaxHeap &h = *p; asked([&] { Fold f; f << h.size() << h.front() << h.value(1) << h.root() << h.left(1) << h.right(1) << h.is_leaf(1); return f.v; }); FREEZE(); { MaxHeap c(h); } THAW(); }
template <unsigned V> static void cht(bool wide) { typedef CHT<V> T; std::unique_ptr<T> p(new T(10)); if (wide) p->set_value_width(20); size_t n = sym_pick(0, 4); static const uint64_t K[] = {3, 77, 1023, 512}; for (size_t i = 0; i < n; i++) { uint64_t v = sym_u8(); p->set(K[i], v); } if (n > 2) p->erase(K[1]); const T &t = *p; uint64_t k = sym_pick(0, 5); k = k < 4 ? K[k] : k == 4 ? 5 : 1000;
  asked([&] { Fold f; f << t.size() << t.bucket(); auto r = t.get(k); f << r.first; if (r.first) f << r.second; return f.v; }); FREEZE(); { T c(t); } THAW(); }
ENTRY(Q01_cht, Q1 "hash tables of 0..4 keys after an erasure, any 8-bit values, 6 keys looked up, values of fixed and of chosen width") { MERGE(0); if (sym_pick(0, 1)) cht<8>(false); else cht<0>(true); }
ENTRY(Q01_words, Q1 "hashes of widths 1, 20, 64, word helpers and size calculations, any word, lengths 1, 33, 64") { static const unsigned W[] = {64, 1, 20}; unsigned w = W[sym_pick(0, 2)]; std::unique_ptr<SplitMixHash> p(new SplitMixHash(w)); const SplitMixHash &h = *p; uint64_t x = sym_bits(w); asked([&] { Fold f; f << h.hash(x) << h.ihash(x); return f.v; });
  if (w != 64) return; static const size_t L[] = {1, 33, 64}; size_t l = L[sym_pick(0, 2)]; asked([&] { Fold f; f << bit_util::WidthMask(l) << bit_util::cnt(x, l) << bit_util::popcnt(x) << bit_util::popcnt((uint32_t)x) << bit_util::popcnt8(x) << bit_util::popcnt16(x) << bit_util::popcnt11(x) << bit_util::popcnt10(x) << bit_util::popcnt111(x) << bit_util::popcnt110(x) << bit_util::popcnt101(x) << bit_util::popcnt100(x) << bit_util::bextr(x, 3, 9) << bit_util::swap_pi1(x) << bit_util::swap_pi2(x) << bit_util::swap_pi4(x) << bit_util::swap_pi8(x) << bit_util::swap_pi16(x) << bit_util::swap_pi32(x) << calc::SizeFitsInBits(x) << calc::SizeFitsInBytes(x); if (x) f << bit_util::ctz(x) << bit_util::clz(x) << bit_util::sel(x, 0); return f.v; }); }
ENTRY(Q01_cdrw, Q1 "CDRWVectors of 0..2 and CDRWArrays of 3 elements, values of 1, 9 and 64 bits, any index") { MERGE(0); STEPS(20000000); static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 3); std::vector<uint64_t> u(n); for (auto &x : u) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } size_t i = n ? sym_pick(0, n - 1) : 0;
  if (n == 3) { std::unique_ptr<CDRWArray> p(new CDRWArray(u.begin(), u.end())); const CDRWArray &a = *p; asked([&] { Fold f; f << a.size() << a.get(i); return f.v; }); }
  else { std::unique_ptr<CDRWVector> p(new CDRWVector); for (auto x : u) p->push_back(x); const CDRWVector &a = *p; asked([&] { Fold f; f << a.size() << a.empty() << a.capacity(); if (n) f << a.get(i); return f.v; }); } }
ENTRY(Q01_initializable, Q1 "in-place arrays of 6 bytes after a fill and 2 sets, back-pointer arrays of 3 elements, any values, 3 indices") { MERGE(0); uint8_t v = sym_u8(), x = sym_u8(), y = sym_u8(); size_t i = sym_pick(0, 5), j = sym_pick(0, 5), k = sym_pick(0, 2); k = k == 2 ? (i + 1) % 6 : k ? j : i;
  { typedef InitializableArray<uint8_t, 6> A; std::unique_ptr<A> p(new A(v)); p->set(i, x); p->set(j, y); const A &a = *p; asked([&] { Fold f; f << a.size() << a.get(k) << (uint8_t)a[k]; return f.v; }); }
  { typedef InitializableArrayFolklore<uint32_t> A; std::unique_ptr<A> p(new A((size_t)6, v)); p->set(i, x); p->set(j, y); const A &a = *p; asked([&] { Fold f; f << a.size() << a.get(k); return f.v; }); } }
ENTRY(Q01_trie, Q1 "a trie of 3 keys, any items; any key of 0..2 bytes looked up, all nodes visited") { MERGE(0); typedef graph_util::Trie<uint64_t> T; std::unique_ptr<T> p(new T); uint64_t u = sym_u64(), v = sym_u64(); p->insert("ab", u); p->insert("b", v); p->insert("", 5); size_t n = sym_pick(0, 2); char q[2] = {(char)sym_u8(), (char)sym_u8()};
  asked([&] { Fold f; f << p->size(); uint64_t *r = p->traverse(std::string_view(q, n)); f << (r ? *r : 1); return f.v; }); const T &t = *p; asked([&] { Fold f; t.dfs([&](const auto &x, size_t d) { f << d << x.terminal(); }); t.bfs([&](const auto &x, size_t d) { f << d << x.terminal(); }); return f.v; }); }
typedef std::vector<std::string> Keys;
static Keys subset() { Keys k; static const char *U[] = {"a", "", "ab", "\x80\xfe", "abc"}; size_t m = sym_pick(1, 31); for (int i = 0; i < 5; i++) if (m >> i & 1) k.push_back(U[i]); std::sort(k.begin(), k.end()); return k; }
static std::string query() { size_t n = sym_pick(0, 3); std::string q(n, 0); for (auto &c : q) c = (char)sym_range(1, 254); return q; }
ENTRY(Q01_samc, Q1 "Samc of any non-empty subset of 5 keys, any query of 0..3 bytes other than 0 and 255") { MERGE(0); STEPS(8000000); typedef Samc<uint32_t, false> T; Keys k = subset(); std::unique_ptr<T> p(new T(k.begin(), k.end())); const T &t = *p; std::string q = query(); asked([&] { Fold f; f << t.accept(q) << t.size_in_bytes(); return f.v; }); saved(t); copied(t); }
ENTRY(Q01_dict, Q1 "SamcDict of any non-empty subset of 5 keys, any query of 0..3 bytes other than 0 and 255, any identifier") { MERGE(0); STEPS(8000000); typedef SamcDict<uint32_t> T; Keys k = subset(); std::unique_ptr<T> p(new T(k.begin(), k.end())); const T &t = *p; std::string q = query(); asked([&] { Fold f; f << t.lookup(q) << t.size_in_bytes(); return f.v; }); if (q.empty()) for (auto &x : k) asked([&] { std::string s = t.access(t.lookup(x)); return s.size() + (s.empty() ? 0 : s[0]); }); saved(t); copied(t); }
static std::string word(size_t lo, size_t hi, const char *over) { size_t n = sym_pick(lo, hi); std::string t(n, 'a'); for (auto &c : t) c = over[sym_pick(0, 1)]; return t; }
ENTRY(Q01_oracle, Q1 "factor oracles of words of 1..4 letters of {a, b}, any query of 0..3 bytes") { MERGE(0); STEPS(2000000); std::string t = word(1, 4, "ab"); std::unique_ptr<FactorOracle> p(new FactorOracle(t)); const FactorOracle &o = *p; size_t n = sym_pick(0, 3); char q[3] = {(char)sym_u8(), (char)sym_u8(), (char)sym_u8()}; asked([&] { Fold f; f << o.accept(std::string_view(q, n)); return f.v; }); FREEZE(); { FactorOracle c(o); } THAW(); }
ENTRY(Q01_suffix, Q1 "suffix arrays of words of 1..4 letters of {a, b}") { STEPS(8000000); std::string t = word(1, 4, "ab"); std::unique_ptr<SuffixArray> p(new SuffixArray(t)); const SuffixArray &s = *p; char m1[2000], m2[2000], m3[2000]; VStream a(m1, sizeof m1), b(m2, sizeof m2), c(m3, sizeof m3);
  { std::ostream &os = a.os(); FREEZE(); s.WriteSA(os); THAW(); } { std::ostream &os = b.os(); FREEZE(); s.WriteLCP(os); THAW(); } { std::ostream &os = c.os(); FREEZE(); s.Write(os); { SuffixArray d(s); } THAW(); } ASSERT(a.written() + b.written() + 8 + t.size() <= c.written() + 8, "saved"); }
template <class M> static void matcher(const char *key, const char *over) { size_t n = sym_pick(0, TIER(5, 7)); char t[8]; for (size_t i = 0; i < n; i++) t[i] = over[sym_pick(0, 1)]; if (n > 2) t[1] = (char)sym_range(1, 255); std::unique_ptr<M> p(new M(std::string_view(key))); const M &m = *p; asked([&] { Fold f; for (size_t x : m.find_all(std::string_view(t, n))) f << x; return f.v; }); }
#define QM(name, M) ENTRY(Q01_##name, Q1 "matchers of 3 keys, texts of 0..5 (thorough 7) letters of {a, b}, the second letter any byte but 0") { MERGE(0); STEPS(2000000); static const char *K[] = {"ab", "aba", "b"}; matcher<pattern_matching::M>(K[sym_pick(0, 2)], "ab"); }
QM(naive, Simple) QM(kmp, Kmp) QM(bm, Bm) QM(bom, Bom) QM(turbobom, TurboBom) QM(quick, SundayQS) QM(maxshift, SundayMS)

// ---- Q02
template <class F> static void alone(F f) { FREEZE(); uint64_t r = f(); THAW(); OBS(r); }
#define Q2 "one object built, changed and destroyed, and one copied from a shared object and changed, with only their own memory writable: "
ENTRY(Q02_bitvector, Q2 "BitVectors of 0, 1, 64, 65, 200 bits, any first word") { MERGE(0); static const size_t N[] = {1, 0, 64, 65, 200}; size_t n = N[sym_pick(0, 4)]; bool x = sym_bool(); std::unique_ptr<BitVector> s(new BitVector(n, x)); size_t i = n ? sym_pick(0, 1) * (n - 1) : 0;
  alone([&] { BitVector b(n, x), c(*s), e{true, false}, d; d = c; for (BitVector *v : {&b, &c, &d, &e}) { v->push_back(x); (*v)[i % v->size()] = !x; v->resize(n + 70, x); v->fill(v->begin() + 1, v->end(), !x); v->reserve(n + 300); v->resize(n / 2 + 1); v->shrink_to_fit(); v->front() = x; } std::swap(b, c); d = std::move(b); c.assign(3, x); return d.size() + c.size() + d[0]; }); }
ENTRY(Q02_succinct, Q2 "rank and select vectors of 0, 70, 300 and 600 bits") { static const size_t N[] = {70, 0, 300, 600}; size_t n = N[sym_pick(0, 3)]; std::unique_ptr<BitVector> b(new BitVector(n)); for (size_t i = 0; i < n; i++) (*b)[i] = mix(i) & 1; auto s = made(SuccinctBitVector<true>(*b)); alone([&] { SuccinctBitVector<true> v(*b), c(*s), d; SuccinctBitVector<false> w(*b); d = c; c = std::move(v); return (n ? d.rank(n) + w.rank(n) + c.select(2) : 0); }); }
ENTRY(Q02_fit, Q2 "FitVectors of widths 1, 7, 33, 64 and 0, 1, 5 elements, any value") { static const size_t W[] = {1, 7, 33, 64}, N[] = {1, 0, 5}; size_t w = W[sym_pick(0, 3)], n = N[sym_pick(0, 2)]; uint64_t x = sym_bits(w); auto s = made(FitVector(w, n, x)); alone([&] { FitVector a(w, n, x), b(*s), c(w), e{1, 0, 1}; c = b; for (FitVector *v : {&a, &b, &c, &e}) { if (v->unit_width() < w) continue; v->push_back(x); (*v)[0] = x; v->resize(n + 9, x); v->reserve(n + 40); v->resize(2); v->front() = x; } std::vector<uint64_t> u{1, 2, 3}; FitVector g(u); std::swap(a, b); c = std::move(a); b.assign(4, x); return c.size() + b[3] + g[2]; }); }
ENTRY(Q02_multiple, Q2 "MultipleVectors of fields of 1, 3, 8 bytes, any values") { MERGE(0); uint64_t a = sym_u8(), b = sym_bits(24), c = sym_u64(); std::unique_ptr<MultipleVector> s(new MultipleVector({1, 3, 8})); s->push_back({a, b, c}); alone([&] { MultipleVector u({1, 3, 8}), v(*s), w; w = v; for (MultipleVector *m : {&u, &v, &w}) { m->push_back({a, b, c}); m->emplace_back(); m->set_nested_element<1>(0, b); m->reserve(9); m->resize(4); m->resize(6, {a, b, c}); } w = std::move(u); return w.size() + w.nested_element<2>(5); }); }
ENTRY(Q02_multibit, Q2 "symbols of 1..3 bits, 30 and 300 of them") { size_t n = sym_pick(0, 1) ? 300 : 30, u = sym_pick(1, 3); auto f = [&](auto z) { typedef decltype(z) V; V t; std::unique_ptr<V> s(new V); for (size_t i = 0; i < n; i++) s->set(i, mix(i) & 1); s->build(); alone([&] { V a, b(*s); for (V *v : {&a, &b}) { for (size_t i = 0; i < n; i++) v->set(i, i & 1); v->build(); v->set(2 * n, 1); v->build(); } a = b; return a[3] + b[n]; }); }; if (u == 1) f(MultiBitVector<1>()); else if (u == 2) f(MultiBitVector<2>()); else f(MultiBitVector<3>()); }
ENTRY(Q02_dac, Q2 "DacVectors of 0..3 elements of 1, 9 and 64 bits; with and without fixed layers") { MERGE(0); static const size_t L[] = {9, 1, 64}; size_t n = sym_pick(0, 3); std::vector<uint64_t> u(n); for (auto &x : u) { size_t l = L[sym_pick(0, 2)]; x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); } auto s = made(DacVector(u)); alone([&] { DacVector a(u), b(*s), c, d(u, std::vector<size_t>{8, 56}); c = b; b = std::move(a); return n ? b[0] + c[n - 1] + d[n / 2] : 0; }); }
ENTRY(Q02_wavelet, Q2 "wavelet trees of 0..3 2-bit and of one 7-bit symbol, any content") { MERGE(0); size_t n = sym_pick(0, 4), top = n == 4 ? 7 : 2; std::vector<uint8_t> v(n == 4 ? 1 : n); for (auto &x : v) x = 1u << (top - 1) | sym_bits(top - 1); auto s = made(WaveletTree(v)); alone([&] { WaveletTree a(v), b(*s), c(std::vector<uint8_t>{1, 0, 3}); c = b; b = std::move(a); return v.empty() ? 0 : b[0] + c.rank(v[0], v.size()); }); }
ENTRY(Q02_heap, Q2 "heaps of 1..3 16-bit elements, any order; sorting them") { MERGE(1); size_t n = sym_pick(1, 3); std::vector<uint64_t> u(n); for (auto &x : u) x = sym_u16(); auto s = made(MaxHeap(u)); uint64_t x = sym_u16(); alone([&] { MinHeap a(u); MaxHeap b(*s); b.push(x); a.push(x); b.pop(); a.pop(); std::vector<uint64_t> w(u); HeapSort(w.begin(), w.end()); return a.front() ^ b.front() ^ w[0]; }); }
ENTRY(Q02_cht, Q2 "hash tables of 10-bit keys, 4 keys, any 8-bit values") { MERGE(0); static const uint64_t K[] = {3, 77, 1023, 512}; uint8_t v = sym_u8(), y = sym_u8(); std::unique_ptr<CHT<8>> s(new CHT<8>(10)); s->set(77, v); alone([&] { CHT<8> a(10), b(*s), c(10); CHT<0> d(10); d.set_value_width(8); d.set(3, v); for (uint64_t k : K) { a.set(k, v); b.set(k, y); } a.erase(77); b.erase(512); c = a; a.reserve(40); a = std::move(b); return a.get(77).second + c.size() + d.get(3).second; }); }
ENTRY(Q02_cdrw, Q2 "CDRWVectors and CDRWArrays, values of 1, 9 and 64 bits") { MERGE(0); STEPS(20000000); static const size_t L[] = {9, 1, 64}; size_t l = L[sym_pick(0, 2)]; uint64_t x = 1ull << (l - 1) | (l > 1 ? sym_bits(l - 1) : 0); std::unique_ptr<CDRWVector> s(new CDRWVector); s->push_back(x); s->push_back(5); alone([&] { CDRWVector a, b(*s); for (CDRWVector *v : {&a, &b}) { v->push_back(x); v->push_back(3); v->set(0, x ^ 1); v->pop_back(); v->resize(3); v->reserve(4); v->shrink_to_fit(); } CDRWArray r(2); r.set(1, x); a = b; b.clear(); return a.get(0) + r.get(1); }); }
ENTRY(Q02_initializable, Q2 "in-place arrays of 6 bytes, back-pointer arrays of 6 elements, any values, 3 indices") { MERGE(0); uint8_t v = sym_u8(), x = sym_u8(); size_t i = sym_pick(0, 1) * 5; size_t j = sym_pick(0, 2); j = j == 0 ? i : j == 1 ? 5 - i : 2; typedef InitializableArray<uint8_t, 6> A; typedef InitializableArrayFolklore<uint32_t> B; std::unique_ptr<A> s(new A(v)); std::unique_ptr<B> t(new B((size_t)6, v)); alone([&] { A a(v), b(*s); a.set(i, x); b.set(i, x); b.set(j, v); b.fill(x); b.set(j, v); a = b; B c((size_t)6, v), d(*t); c.set(i, x); d.set(i, x); d.fill(x); d.set(j, v); c = d; return a.get(i) + b.get(j) + c.get(i) + d.get(j); }); }
ENTRY(Q02_trie, Q2 "tries, keys of 0..2 bytes, any items") { MERGE(0); typedef graph_util::Trie<uint64_t> T; std::unique_ptr<T> s(new T); uint64_t u = sym_u64(), v = sym_u64(); s->insert("ab", u); static const char *K[] = {"ab", "b", "", "abc"}; size_t k = sym_pick(0, 3); alone([&] { T a, b(*s); for (T *t : {&a, &b}) { t->insert(K[k], v); t->insert("ab", u ^ 1); } a = b; return *a.traverse("ab") + b.size(); }); }
ENTRY(Q02_samc, Q2 "Samc and SamcDict of any non-empty subset of 5 keys, both builders") { MERGE(0); STEPS(8000000); Keys k = subset(); typedef Samc<uint32_t, false> T; typedef Samc<uint32_t, true> L; typedef SamcDict<uint32_t> D; std::unique_ptr<T> s(new T(k.begin(), k.end())); std::unique_ptr<D> e(new D(k.begin(), k.end())); alone([&] { T a(k.begin(), k.end()), b(*s); L l(k.begin(), k.end()); D d(k.begin(), k.end()), f(*e); a = b; f = d; return a.accept(k[0]) + l.accept(k[0]) + f.lookup(k[0]); }); }
ENTRY(Q02_strings, Q2 "suffix arrays and factor oracles of words of 1..4 letters of {a, b}") { MERGE(0); STEPS(8000000); std::string t = word(1, 4, "ab"); std::unique_ptr<SuffixArray> s(new SuffixArray(t)); std::unique_ptr<FactorOracle> o(new FactorOracle(t)); alone([&] { SuffixArray a(t), b(*s); FactorOracle c(t), d(*o); a = b; c = d; return (uint64_t)c.accept(std::string_view("ab")); }); }
ENTRY(Q02_matchers, Q2 "matchers built and used, 3 keys, texts of 4 letters of {a, b}") { MERGE(0); STEPS(2000000); static const char *K[] = {"ab", "aba", "b"}; const char *key = K[sym_pick(0, 2)]; char t[4]; for (char &c : t) c = "ab"[sym_pick(0, 1)]; std::string_view x(t, 4); alone([&] { using namespace pattern_matching; return PatternMatchSimple(x, key).size() + PatternMatchKMP(x, key).size() + PatternMatchBM(x, key).size() + PatternMatchBOM(x, key).size() + PatternMatchTurboBOM(x, key).size() + PatternMatchSundayQS(x, key).size() + PatternMatchSundayMS(x, key).size(); }); }
