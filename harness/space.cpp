// Z01: the space the structures exist for: what size_in_bytes reports is what is saved, and it is the payload plus the
// stated index overhead.
#include "vstream.h"
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/CHT.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
#include <sim_ds/string_util/Samc.hpp>
using namespace sim_ds;
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
template <class S> static size_t saved(const S &s, size_t cap) { VStream v(cap); s.Write(v.os()); return v.written(); }
#ifdef MEASURE
static void atMost(size_t bytes, size_t limit, const char *m) { __sym_print(m, bytes); __sym_print("   limit", limit); }
#else
static void atMost(size_t bytes, size_t limit, const char *m) { ASSERT(bytes <= limit, m); }
#endif
template <class S> static void judge(const S &s, size_t limit) { size_t b = s.size_in_bytes(), w = saved(s, 2 * limit + 65536); OBS(b); OBS(w); ASSERT(b == w, "size_in_bytes is the number of bytes saved"); atMost(b, limit, "the space is the payload and the stated overhead"); }
static size_t words(size_t bits) { return 8 * ((bits + 63) / 64); }
ENTRY(Z01_bits, "BitVectors of 0..3 words after every history of 3 out of push_back, resize, reserve, shrink, assign to 0..200 bits") {
  BitVector b; size_t hi = 0; for (int k = 0; k < 3; k++) { static const size_t N[] = {0, 1, 63, 64, 65, 200}; size_t n = N[sym_pick(0, 5)]; switch (sym_pick(0, 3)) { case 0: b.resize(n); break; case 1: b.assign(n, sym_bool()); break; case 2: b.push_back(sym_bool()); break; case 3: b = BitVector(n, sym_bool()); break; } }
  judge(b, words(b.size()) + 8 + 16);
}
ENTRY(Z01_fit, "FitVectors of every width, 0..9 elements, every content") { size_t w = sym_pick(1, 64), n = sym_pick(0, 9); FitVector f(w); for (size_t k = 0; k < n; k++) f.push_back(sym_bits(w)); judge(f, words(n * w) + 8 + 24); }
ENTRY(Z01_fit_vector, "FitVectors from vectors of 1..4 elements of one bit length, every value") { size_t w = sym_pick(1, 64), n = sym_pick(1, 4); std::vector<uint64_t> v(n); for (auto &x : v) x = sym_bits(w); v[n - 1] |= 1ull << (w - 1); FitVector f(v); judge(f, words(n * w) + 8 + 24); }
static BitVector bits(size_t n, size_t kind) { BitVector b(n); uint64_t *d = b.data(); for (size_t k = 0; k < n / 64; k++) d[k] = kind == 0 ? mix(k) : kind == 1 ? (k % 60 == 59 ? 1ull << (k % 64) : 0) : kind == 2 ? ~0ull : k < n / 128 ? ~0ull : 0; return b; }
static const size_t NS[] = {0, 1, 64, 511, 512, 513, 1024, 1100, 10000, 65536};
#define ZR "vectors of 0, 1, 64, 511..513, 1024, 1100, 10000 and 65536 bits of 4 densities, one word of any value"
template <bool S> static void ranks() { STEPS(80000000); size_t n = NS[sym_pick(0, 9)]; BitVector v = bits(n, sym_pick(0, 3)); if (n >= 64) v.data()[n / 64 - 1] = sym_u64(); SuccinctBitVector<S> b(v); judge(b, words(n) + 24 + 16 * (n / 512 + 2) + 8 + (S ? 4 * (n / 512 + 4) + 8 : 0)); }
ENTRY(Z01_rank, ZR) { ranks<false>(); }
ENTRY(Z01_select, ZR) { ranks<true>(); }
ENTRY(Z01_select_sparse, "vectors of 65536 bits with 1 to 9 ones: the select index grows with the ones") { STEPS(80000000); size_t n = 65536; BitVector v(n); size_t c = 1 + sym_pick(0, 8); for (size_t k = 0; k < c; k++) v.data()[mix(k) % (n / 64)] = 1ull << (k * 7); SuccinctBitVector<true> b(v); judge(b, words(n) + 24 + 16 * (n / 512 + 2) + 8 + 4 * 5 + 8); }
template <unsigned U> static void multi() { STEPS(80000000); static const size_t N[] = {0, 1, 63, 64, 300, 5000}; size_t n = N[sym_pick(0, 5)], kinds = sym_pick(1, (1 << U) - 1); MultiBitVector<U> m; if (n) m.resize(n); for (size_t k = 0; k < n; k++) m.set(k, 1 + mix(k) % kinds); m.build(); size_t per = 64 / U, w = n / per + 1, blocks = w / (4 * U) + 1; judge(m, 8 * w + 8 + ((size_t)1 << U) * 8 + kinds * blocks * (8 + 8 * ((4 * U + 7) / 8))); }
#define ZM "0, 1, 63, 64, 300 and 5000 elements out of 1.. all kinds, set and built"
ENTRY(Z01_multi1, "MultiBitVector<1>: " ZM) { multi<1>(); }
ENTRY(Z01_multi2, "MultiBitVector<2>: " ZM) { multi<2>(); }
ENTRY(Z01_multi3, "MultiBitVector<3>: " ZM) { multi<3>(); }
ENTRY(Z01_wavelet, "10, 700 and 5000 symbols below 2, 7, 60, 256 (fixed, one of any value)") {
  STEPS(200000000); static const size_t A[] = {2, 7, 60, 256}, NN[] = {10, 700, 5000}, H[] = {1, 3, 6, 8}; size_t ai = sym_pick(0, 3), a = A[ai], n = NN[sym_pick(0, 2)], h = H[ai]; std::vector<uint8_t> v(n); for (size_t k = 0; k < n; k++) v[k] = mix(k) % a; v[0] = a - 1; v[n / 2] = sym_pick(0, 1) ? 0 : a - 1; WaveletTree t(v);
  judge(t, 24 + (n * h + 7) / 8 * 5 / 4 + (((size_t)1 << h) - 1) * 80);
}
ENTRY(Z01_dac, "DacVectors of 1, 300 and 3000 elements of 4 distributions, automatic layers") {
  STEPS(400000000); static const size_t NN[] = {1, 300, 3000}; size_t n = NN[sym_pick(0, 2)], kind = sym_pick(0, 3); std::vector<uint64_t> v(n); size_t width = 0; for (size_t k = 0; k < n; k++) { v[k] = kind == 0 ? mix(k) >> 60 : kind == 1 ? mix(k) >> 40 : kind == 2 ? (k % 100 ? mix(k) >> 58 : mix(k)) : mix(k) >> (mix(k + 7) % 64); size_t w = 1; while (w < 64 && v[k] >> w) w++; width = w > width ? w : width; }
  DacVector d(v); size_t b = d.size_in_bytes(), s = saved(d, n * 32 + 4096); OBS(b); OBS(s); ASSERT(b + 16 >= s && b <= s + 16, "size_in_bytes is within 16 bytes of the number of bytes saved"); atMost(b, words(n * width) * 5 / 4 + 64 + 160 * d.num_layers(), "no more than the same elements at full width");
  if (kind == 2 && n == 3000) atMost(b, 3000 * 2, "elements of 6 bits with a few of 64 take less than 2 bytes each");
}
template <uint64_t... B> static void multiple() { size_t n = sym_pick(0, 40); MultipleVector m({B...}); m.resize(n); size_t per = (B + ...); size_t b = m.size_in_bytes(); OBS(b); atMost(b, per * (n + 8) + 8 * (sizeof...(B) + 8) + 32, "one byte per byte of the fields"); }
ENTRY(Z01_multiple, "MultipleVectors of fields of 1, 3 and 8 bytes, 0..40 elements") { multiple<1, 3, 8>(); }
ENTRY(Z01_hash, "CHT of 30-bit keys: 50 and 800 fixed keys set, most, half or none erased again, then up to 9000 others set and erased") {
  STEPS(200000000); size_t n = sym_pick(0, 1) ? 50 : 800; CHT<8> t(30); auto key = [](size_t k) { return mix(k) & 0x3fffffff; }; size_t start = t.bucket(); auto room = [&](size_t most) { size_t lim = 8 * most > start ? 8 * most : start; ASSERT(t.size() <= t.bucket(), "one bucket per key"); atMost(t.bucket(), lim, "the number of buckets is at most 8 times the keys"); };
  size_t most = 0; for (size_t k = 0; k < n; k++) { t.set(key(k), k & 255); most = t.size() > most ? t.size() : most; room(most); } size_t few = sym_pick(0, 2), gone = few == 0 ? n - 2 : few == 1 ? n / 2 : 0; for (size_t k = 0; k < gone; k++) t.erase(key(k)); room(most); for (size_t r = 1; r < (n == 50 ? 60 : 12); r++) for (size_t k = 0; k < n; k++) { size_t q = r * n + k; t.set(key(q), 1); most = t.size() > most ? t.size() : most; room(most); t.erase(key(q)); } room(most);
}
ENTRY(Z01_suffix, "SuffixArrays of texts of 10 and 700 letters") { STEPS(200000000); size_t n = sym_pick(0, 1) ? 10 : 700, w = n == 10 ? 4 : 10; std::string t(n, 'a'); for (size_t k = 0; k < n; k++) t[k] = (char)(1 + mix(k) % 4); SuffixArray s(t); VStream v(65536); s.Write(v.os()); size_t b = v.written(); OBS(b); atMost(b, 8 + n + 2 * (words(n * w) + 8 + 24), "text and two arrays of numbers below its length"); }
ENTRY(Z01_samc, "Samc and SamcDict of 10 and 150 keys of 5 letters") {
  STEPS(400000000); size_t n = sym_pick(0, 1) ? 10 : 150; std::set<std::string> s; for (size_t k = 0; s.size() < n; k++) { std::string q; for (uint64_t x = mix(k), i = 0; i < 5; i++, x >>= 7) q += (char)('a' + x % 8); s.insert(q); } std::vector<std::string> ks(s.begin(), s.end()); size_t b = 0;
  bool dict = sym_pick(0, 1); if (dict) { SamcDict<uint32_t> a(ks.begin(), ks.end()); b = saved(a, 1 << 20); } else { Samc<uint32_t, false> a(ks.begin(), ks.end()); b = saved(a, 1 << 20); } OBS(b); atMost(b, (dict ? 20 : 4) * 6 * n + 4 * 256 * 8, "a few bytes per letter");
}
