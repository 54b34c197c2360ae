// R01, R02: what was saved is loaded again. Every load is followed by a marker that must still be in the stream.
#include "vstream.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/SuccinctBitVector.hpp>
#include <sim_ds/FitVector.hpp>
#include <sim_ds/MultipleVector.hpp>
#include <sim_ds/MultiBitVector.hpp>
#include <sim_ds/DacVector.hpp>
#include <sim_ds/WaveletTree.hpp>
#include <sim_ds/string_util/Samc.hpp>
#include <sim_ds/string_util/SuffixArray.hpp>
using namespace sim_ds;
static const uint64_t MARK = 0x5aa51ee7c0ffee01ull;
template <class S> static void saved(VStream &v, S save) { save(v.os()); size_t n = v.written(); write_val(MARK, v.os()); ASSERT(v.written() == n + 8, "nothing but what is saved is written"); }
static void behind(VStream &v) { ASSERT(v.good() && v.left() == 8, "exactly the saved bytes are consumed"); uint64_t m = read_val<uint64_t>(v.is()); ASSERT(m == MARK && v.good() && v.left() == 0, "the data behind is intact"); }

// ---- R01
ENTRY(R01_values, "values of 1, 2, 4 and 8 bytes one after another, every content") {
  uint8_t a = sym_u8(); uint16_t b = sym_u16(); uint32_t c = sym_u32(); uint64_t d = sym_u64(); bool e = sym_bool(); VStream v;
  saved(v, [&](std::ostream &os) { write_val(a, os); write_val(b, os); write_val(c, os); write_val(d, os); write_val(e, os); }); ASSERT(v.written() == 24, "one byte per byte");
  uint8_t a2 = read_val<uint8_t>(v.is()); uint16_t b2 = read_val<uint16_t>(v.is()); uint32_t c2 = read_val<uint32_t>(v.is()); uint64_t d2 = read_val<uint64_t>(v.is()); bool e2 = read_val<bool>(v.is());
  ASSERT(a2 == a && b2 == b && c2 == c && d2 == d && e2 == e, "the values written"); behind(v);
}
template <class T> static void vecs() {
  size_t n = sym_pick(0, TIER(5, 12)); std::vector<T> s(n), t(sym_pick(0, 3), (T)7); for (auto &x : s) x = (T)sym_u64(); VStream v;
  saved(v, [&](std::ostream &os) { write_vec(s, os); }); ASSERT(v.written() == n * sizeof(T) + 16, "size and elements"); ASSERT(size_vec(s) == n * sizeof(T) + 8, "size_vec is the number of bytes saved");
  read_vec(v.is(), t); ASSERT(t.size() == n, "size"); bool same = t.size() == n; for (size_t i = 0; same && i < n; i++) same = same & (t[i] == s[i]); ASSERT(same, "elements"); behind(v);
}
#define RV "vectors of 0..5 (thorough 12) elements, every content, into vectors of 0..3 elements"
ENTRY(R01_vec8, "8-bit " RV) { vecs<uint8_t>(); }
ENTRY(R01_vec16, "16-bit " RV) { vecs<uint16_t>(); }
ENTRY(R01_vec32, "32-bit " RV) { vecs<int32_t>(); }
ENTRY(R01_vec64, "64-bit " RV) { vecs<uint64_t>(); }
ENTRY(R01_string, "strings of 0..9 (thorough 20) bytes, every content") {
  size_t n = sym_pick(0, TIER(9, 20)); std::string s(n, 'x'); for (auto &c : s) c = (char)sym_u8(); VStream v; saved(v, [&](std::ostream &os) { write_string(s, os); });
  std::string t = read_string(v.is()); ASSERT(t.size() == n, "size"); bool same = t.size() == n; for (size_t i = 0; same && i < n; i++) same = same & (t[i] == s[i]); ASSERT(same, "bytes"); behind(v);
}
static const size_t SZ[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 130, 256, 511, 512, 513, 640};
static size_t size(size_t most) { return SZ[sym_pick(0, most)]; }
static BitVector bits(size_t n) { BitVector b(n); for (size_t k = 0; k < n; k += 64) { uint64_t w = sym_bits(n - k < 64 ? n - k : 64); for (size_t i = k; i < n && i < k + 64; i++) b[i] = (w >> (i - k)) & 1; } return b; }
ENTRY(R01_bitvector, "BitVectors of 0, 1, 2, 63..65, 127..130 bits, every content, into fresh, smaller and larger vectors; then 2 more bits pushed") {
  size_t n = size(9); BitVector s = bits(n); VStream v; saved(v, [&](std::ostream &os) { s.Write(os); });
  BitVector t; size_t how = sym_pick(0, 2); if (how) t = BitVector(how == 1 ? 3 : 200, true);
  t.Read(v.is()); behind(v); ASSERT(t.size() == n && t.empty() == (n == 0), "size"); ASSERT(t.size_in_bytes() == v.written() - 8, "size_in_bytes is the number of bytes saved");
  size_t i = sym_pick(0, n ? n - 1 : 0); if (n) ASSERT(t[i] == s[i], "bits");
  bool x = sym_bool(); t.push_back(x); t.push_back(!x); ASSERT(t.size() == n + 2 && t[n] == x && t[n + 1] == !x && (!n || t[i] == s[i]), "bits pushed after loading"); 
}
template <bool S> static void succinct() {
  size_t n = size(TIER(10, 14)); BitVector b(n);
  size_t from = n > 70 ? n - 70 : 0; for (size_t k = 0; k < from; k++) b[k] = k % 3 == 1; for (size_t k = from; k < n; k++) if (n < 5 || k + 6 >= n || k < from + 4) b[k] = sym_bool(); else b[k] = k % 5 == 2;
  SuccinctBitVector<S> s(b), t; if (sym_pick(0, 1)) t = SuccinctBitVector<S>(BitVector(700, true)); VStream v; saved(v, [&](std::ostream &os) { s.Write(os); });
  size_t ctor = sym_pick(0, 1); if (ctor) t = SuccinctBitVector<S>(v.is()); else t.Read(v.is());
  behind(v); ASSERT(t.size() == n, "size"); ASSERT(t.size_in_bytes() == s.size_in_bytes() && t.num_blocks() == s.num_blocks(), "size in bytes"); bool ok = true, rk = true, sl = true; size_t ones = 0;
  for (size_t i = 0; i < n; i++) { if (n < 80 || i + 70 >= n || i % 61 == 0) { ok = ok & (t[i] == (bool)b[i]); rk = rk & (t.rank(i) == s.rank(i)) & (t.rank_0(i) == s.rank_0(i)); } ones += (bool)b[i]; }
  ASSERT(ok, "bits"); ASSERT(rk, "ranks");
  if constexpr (S) { size_t k = sym_pick(0, 3); if (n && k < ones) ASSERT(t.select(k) == s.select(k), "select"); if (ones > 4) { size_t a = t.select(ones - 1), c = s.select(ones - 1); ASSERT(a == c, "last select"); } }
}
ENTRY(R01_succinct_rank, "rank vectors of 0, 1, 2, 63..65, 127..130, 256 (thorough also 511..513, 640) bits, up to 10 of them symbolic, into fresh and larger vectors, by Read and by constructor") { succinct<false>(); }
ENTRY(R01_succinct_select, "select vectors, otherwise as for ranks") { succinct<true>(); }
ENTRY(R01_fit, "FitVectors of every width, 0..3 (thorough 9) elements, every content, into vectors of other widths; then one more element") {
  size_t w = sym_pick(1, 64), n = sym_pick(0, TIER(3, 9)); FitVector s(w, n, 0); std::vector<uint64_t> r(n); for (size_t i = 0; i < n; i++) { r[i] = sym_bits(w); s[i] = r[i]; }
  VStream v; saved(v, [&](std::ostream &os) { s.Write(os); }); FitVector t(7, 20, 5); t = FitVector(v.is()); behind(v);
  ASSERT(t.size() == n && t.empty() == (n == 0) && t.unit_width() == w, "size and width"); ASSERT(t.size_in_bytes() == v.written() - 8, "size_in_bytes is the number of bytes saved"); for (size_t i = 0; i < n; i++) ASSERT(t[i] == r[i], "elements");
  uint64_t x = sym_bits(w); t.push_back(x); ASSERT(t.size() == n + 1 && t[n] == x && (!n || t[n - 1] == r[n - 1]), "an element pushed after loading");
}
ENTRY(R01_multi, "MultipleVectors of 3 fields of 1, 2, 4 or 8 bytes, 0..2 (thorough 4) blocks, every content, into fresh and non-empty vectors of other fields; then one more block") {
  static const size_t W[] = {1, 2, 4, 8}; size_t w[3]; for (auto &x : w) x = W[sym_pick(0, 3)]; size_t n = sym_pick(0, TIER(2, 4)); MultipleVector s({w[0], w[1], w[2]}), t; std::vector<std::array<uint64_t, 3>> r(n);
  for (auto &b : r) { for (size_t f = 0; f < 3; f++) b[f] = sym_bits(8 * w[f]); s.push_back({b[0], b[1], b[2]}); }
  if (sym_pick(0, 1)) { t = MultipleVector({3, 5}); t.push_back({7, 8}); t.push_back({9, 10}); }
  VStream v; saved(v, [&](std::ostream &os) { s.StoreTo(os); }); t.LoadFrom(v.is()); behind(v); ASSERT(t.size() == n && t.block_size() == w[0] + w[1] + w[2], "size");
  for (size_t f = 0; f < 3; f++) ASSERT(t.element_size(f) == w[f], "field widths"); r.push_back({sym_bits(8 * w[0]), 0, 0}); r[n][1] = sym_bits(8 * w[1]); r[n][2] = sym_bits(8 * w[2]); t.push_back({r[n][0], r[n][1], r[n][2]}); ASSERT(t.size() == n + 1, "size after push_back");
  for (size_t i = 0; i <= n; i++) { ASSERT(t.nested_element<0>(i) == r[i][0] && t.nested_element<1>(i) == r[i][1] && t.nested_element<2>(i) == r[i][2], "fields"); ASSERT(t.block(i).get_at(1) == r[i][1], "block access"); }
}
template <unsigned U> static void multibit() {
  static const size_t N[] = {1, 2, 22, 33, 66, 700}; size_t n = N[sym_pick(0, TIER(4, 5))]; MultiBitVector<U> s, t; if (sym_pick(0, 1)) { for (size_t i = 0; i < 90; i++) t.set(i, 1); t.build(); }
  std::vector<uint8_t> r(n); for (size_t i = 0; i < n; i++) { r[i] = i < 3 || i + 4 >= n ? sym_bits(U) : (i * 5 + 1) % (1u << U); s.set(i, r[i]); } bool built = sym_pick(0, 1); if (built) s.build();
  VStream v(8192); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size_in_bytes() == v.written() - 8, "size_in_bytes is the number of bytes saved");
  bool ok = true, rk = true; for (size_t i = 0; i < n; i++) { ok = ok & (t[i] == r[i]); if (built && (i < 3 || i + 4 >= n || i % 29 == 0) && r[i] != 0) rk = rk & (t.rank(i) == s.rank(i)); } ASSERT(ok, "symbols"); ASSERT(rk, "ranks");
}
#define RM "symbols: vectors of 1, 2, 22, 33, 66 (thorough also 700) symbols, the first 3 and last 4 symbolic, built or not, into fresh and non-empty vectors"
ENTRY(R01_multibit1, "1-bit " RM) { multibit<1>(); }
ENTRY(R01_multibit2, "2-bit " RM) { multibit<2>(); }
ENTRY(R01_multibit3, "3-bit " RM) { multibit<3>(); }

// ---- R02
static uint64_t ofLength(size_t len) { return (1ull << (len - 1)) | (len > 1 ? sym_bits(len - 1) : 0); }
static void dac(const DacVector &s, const std::vector<uint64_t> &r) {
  VStream v; saved(v, [&](std::ostream &os) { s.Write(os); }); DacVector t; size_t how = sym_pick(0, 2); if (how == 1) t = DacVector(std::vector<uint64_t>{1, 1ull << 40, 3, 70000}, std::vector<size_t>{2, 20, 20});
  if (how == 2) t = DacVector(v.is()); else t.Read(v.is()); behind(v); ASSERT(t.size() == r.size() && t.empty() == r.empty() && t.num_layers() == s.num_layers(), "size"); ASSERT(t.size_in_bytes() == s.size_in_bytes(), "size in bytes"); HIT(t.num_layers() > 1, "several layers");
  for (size_t i = 0; i < r.size(); i++) { ASSERT(t[i] == r[i], "elements"); ASSERT(t.depth(i) == s.depth(i), "depths"); } size_t k = 0; for (auto it = t.begin(); it != t.end(); ++it, k++) { if (k < r.size()) ASSERT(*it == r[k], "iteration"); } ASSERT(k == r.size(), "iteration covers everything");
}
ENTRY(R02_dac_empty, "empty DacVectors, into fresh and non-empty ones") { std::vector<uint64_t> e; if (sym_pick(0, 1)) dac(DacVector(e), e); else if (sym_pick(0, 1)) dac(DacVector(), e); else dac(DacVector(e, std::vector<size_t>{8, 8}), e); }
ENTRY(R02_dac_auto, "DacVectors of 1..2 (thorough 3) elements of bit lengths 1, 2, 9, 33, 64, every value of that length, into fresh and non-empty ones, by Read and by constructor") { static const size_t L[] = {1, 2, 9, 33, 64}; std::vector<uint64_t> r; size_t n = sym_pick(1, TIER(2, 3)); for (size_t i = 0; i < n; i++) r.push_back(ofLength(L[sym_pick(0, 4)])); STEPS(3000000); dac(DacVector(r), r); }
ENTRY(R02_dac_layers, "DacVectors of 1..3 (thorough 4) elements of bit lengths 1, 8, 9, 20 with layers {8, 4, 8}, {1, 30} and {64}, otherwise as for automatic layers") { EXPECT("several layers"); static const size_t L[] = {1, 8, 9, 20}; static const std::vector<size_t> W[] = {{8, 4, 8}, {1, 30}, {64}}; std::vector<uint64_t> r; size_t n = sym_pick(1, TIER(3, 4)); for (size_t i = 0; i < n; i++) r.push_back(ofLength(L[sym_pick(0, 3)])); size_t w = sym_pick(0, 2); dac(DacVector(r, W[w]), r); }
template <class T> static void wavelet(const std::vector<T> &r) {
  WaveletTree s(r); static const std::vector<uint8_t> O[] = {{1}, {0, 1, 5, 2}, {200, 3, 77}}; size_t o = sym_pick(0, 2); WaveletTree t(O[o]); VStream v; saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v);
  ASSERT(t.size() == r.size(), "size"); ASSERT(t.size_in_bytes() == s.size_in_bytes(), "size in bytes"); size_t i = sym_pick(0, r.size() - 1); ASSERT(t[i] == r[i], "access"); ASSERT(t.rank(i) == s.rank(i), "rank"); auto a = t.AccessAndRank(i), b = s.AccessAndRank(i); ASSERT(a == b, "AccessAndRank"); ASSERT(t.rank((uint8_t)r[i], i) == s.rank(i), "rank of a symbol");
}
template <class T> static std::vector<T> symbols(size_t n, unsigned h) { std::vector<T> v(n); uint64_t all = 0; for (auto &x : v) { x = (T)sym_bits(h); all |= x; } ASSUME(h == 1 || (all >> (h - 1)) != 0); return v; }
#define RW " into trees of heights 1, 3 and 8"
ENTRY(R02_wavelet_empty, "empty trees into trees of heights 1, 3 and 8, and those into an empty tree") { static const std::vector<uint8_t> O[] = {{1}, {0, 1, 5, 2}, {200, 3, 77}}, none; size_t o = sym_pick(0, 2); bool back = sym_pick(0, 1); WaveletTree s(back ? O[o] : none), t(back ? none : O[o]); VStream v(65536); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size() == s.size() && t.size_in_bytes() == s.size_in_bytes(), "size"); bool ok = true; for (size_t i = 0; i < s.size(); i++) ok = ok & (t[i] == O[o][i]); ASSERT(ok, "access"); }
ENTRY(R02_wavelet1, "every sequence of 1..8 1-bit symbols," RW) { wavelet(symbols<uint8_t>(sym_pick(1, 8), 1)); }
ENTRY(R02_wavelet2, "every sequence of 1..5 2-bit symbols," RW) { wavelet(symbols<uint8_t>(sym_pick(1, 5), 2)); }
ENTRY(R02_wavelet3, "every sequence of 1..4 3-bit symbols," RW) { wavelet(symbols<uint32_t>(sym_pick(1, 4), 3)); }
ENTRY(R02_wavelet6, "every single 4..6-bit symbol," RW) { unsigned h = sym_pick(4, 6); wavelet(symbols<uint8_t>(1, h)); }
typedef std::vector<std::string> Keys;
static Keys subset() { Keys k; static const char *U[] = {"", "a", "ab", "\x80\xfe", "\xfe"}; for (int i = 0; i < 5; i++) if (sym_pick(0, 1)) k.push_back(U[i]); return k; }
struct Q { unsigned char *p; size_t n; explicit Q(size_t n) : p(new unsigned char[n]), n(n) { for (size_t i = 0; i < n; i++) p[i] = sym_u8(); } ~Q() { delete[] p; } Q(const Q &) = delete; std::string_view sv() const { return std::string_view((const char *)p, n); } };
static size_t find(const Keys &ks, const Q &q) { size_t r = ks.size(); for (size_t i = 0; i < ks.size(); i++) { if (ks[i].size() != q.n) continue; bool e = true; for (size_t j = 0; j < q.n; j++) e = e & ((unsigned char)ks[i][j] == q.p[j]); r = e ? i : r; } return r; }
template <class T> static T target() { if (sym_pick(0, 1)) return T(); static const Keys o{"abcdef", "abd", "x", "yyz"}; return T(o.begin(), o.end()); }
template <class C, bool L> static void samc() {
  Keys k = subset(); STEPS(4000000); typedef Samc<C, L> T; T s(k.begin(), k.end()); T t = target<T>(); VStream v(16384); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size_in_bytes() == v.written() - 8, "size_in_bytes is the number of bytes saved");
  for (auto &x : k) ASSERT(t.accept(x), "keys"); Q q(sym_pick(0, 3)); bool r = t.accept(q.sv()); ASSERT(r == (find(k, q) < k.size()), "exactly the keys"); HIT(r, "accepted"); HIT(!r, "rejected");
}
#define RS "any subset of 5 keys of up to 2 bytes, into fresh and non-empty dictionaries; any query of 0..3 bytes"
ENTRY(R02_samc, RS) { EXPECT("accepted"); EXPECT("rejected"); samc<uint32_t, false>(); }
ENTRY(R02_samc_bytes, "8-bit codes, legacy construction: " RS) { EXPECT("accepted"); EXPECT("rejected"); samc<uint8_t, true>(); }
ENTRY(R02_dict, "SamcDict: " RS) { EXPECT("accepted"); EXPECT("rejected");
  Keys k = subset(); STEPS(4000000); typedef SamcDict<uint32_t> T; T s(k.begin(), k.end()); T t = target<T>(); VStream v(16384); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size_in_bytes() == s.size_in_bytes(), "size in bytes");
  for (auto &x : k) { size_t i = s.lookup(x); ASSERT(t.lookup(x) == i, "numbers of the keys"); ASSERT(t.access(i) == x, "keys of the numbers"); } Q q(sym_pick(0, 3)); size_t i = find(k, q), r = t.lookup(q.sv()); ASSERT((r == T::kSearchError) == (i == k.size()), "exactly the keys"); HIT(i < k.size(), "accepted"); HIT(i == k.size(), "rejected");
}
ENTRY(R02_suffix, "suffix arrays of the empty text, every text of 1 non-NUL byte and every text of 2..3 (thorough 4) letters of {a, b, 0xff}, into fresh and non-empty ones") {
  size_t n = sym_pick(0, TIER(3, 4)); std::string x(n, 'a'); static const char A[] = {'a', 'b', '\xff'}; for (auto &c : x) c = n == 1 ? (char)sym_range(1, 255) : A[sym_pick(0, 2)]; STEPS(4000000);
  SuffixArray s, t; if (n) s = SuffixArray(x); if (sym_pick(0, 1)) t = SuffixArray(std::string("mississippi")); VStream v, a, b, c, d; saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v);
  saved(a, [&](std::ostream &os) { s.WriteSA(os); }); saved(b, [&](std::ostream &os) { t.WriteSA(os); }); saved(c, [&](std::ostream &os) { s.WriteLCP(os); }); saved(d, [&](std::ostream &os) { t.WriteLCP(os); });
  ASSERT(a.written() == b.written() && c.written() == d.written(), "sizes"); bool same = true; for (size_t i = 0; same && i < a.written(); i++) same = same & (a.byte(i) == b.byte(i)); ASSERT(same, "suffix array"); same = true; for (size_t i = 0; same && i < c.written(); i++) same = same & (c.byte(i) == d.byte(i)); ASSERT(same, "LCP array");
  for (size_t i = 0; i < n; i++) { ASSERT(t.char_at(i) == (uint8_t)x[i], "text"); auto y = t.suffix(i); ASSERT(y.size() == n - i, "suffix"); bool e = true; for (size_t k = 0; k < y.size(); k++) e = e & (y[k] == x[i + k]); ASSERT(e, "suffix"); }
}

// ---- large containers: fixed contents, a few symbolic places
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
static const size_t LN[] = {255, 256, 300, 4097, 66000};
static size_t big() { return LN[sym_pick(0, TIER(3, 4))]; }
static bool look(size_t i, size_t n) { return i < 70 || i + 70 > n || i % 61 == 0; }
#define RL "255, 256, 300 and 4097 (thorough 66000) elements of fixed content and one symbolic, into fresh and non-empty containers"
template <class T> static void largeVec(size_t n) { STEPS(60000000); std::vector<T> s(n), t(sym_pick(0, 1), (T)7); for (size_t i = 0; i < n; i++) s[i] = (T)mix(i); s[n / 2] = (T)sym_bits(8 * sizeof(T)); VStream v(n * sizeof(T) + 64); saved(v, [&](std::ostream &os) { write_vec(s, os); }); read_vec(v.is(), t); ASSERT(t.size() == n, "size"); bool same = t.size() == n; for (size_t i = 0; same && i < n; i++) if (look(i, n) || i == n / 2) same = same & (t[i] == s[i]); ASSERT(same, "elements"); behind(v); }
ENTRY(R01_large_vectors, "vectors of 8, 16 and 64 bits: " RL) { size_t n = big(), w = sym_pick(0, 2); if (w == 0) largeVec<uint8_t>(n); else if (w == 1) largeVec<uint16_t>(n); else largeVec<uint64_t>(n); }
ENTRY(R01_large_string, "strings: " RL) { STEPS(60000000); size_t n = big(); std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)mix(i); s[n / 2] = (char)sym_u8(); VStream v(n + 64); saved(v, [&](std::ostream &os) { write_string(s, os); }); std::string t = read_string(v.is()); ASSERT(t.size() == n, "size"); bool same = t.size() == n; for (size_t i = 0; same && i < n; i++) if (look(i, n) || i == n / 2) same = same & (t[i] == s[i]); ASSERT(same, "bytes"); behind(v); }
ENTRY(R01_large_bits, "BitVectors: " RL) { STEPS(60000000); size_t n = big(); BitVector s(n), t; if (sym_pick(0, 1)) t = BitVector((size_t)1000, true); for (size_t i = 0; i < n; i++) s[i] = mix(i) & 1; s[n / 2] = sym_bool(); VStream v(n + 64); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size() == n, "size"); bool ok = true; for (size_t i = 0; i < n; i++) if (look(i, n) || i == n / 2) ok = ok & (t[i] == s[i]); ASSERT(ok, "bits"); t.push_back(true); ASSERT(t.size() == n + 1 && t[n] && t[n - 1] == s[n - 1], "bits pushed after loading"); }
template <bool S> static void largeSuccinct() { STEPS(90000000);
  size_t n = big(), kind = sym_pick(0, 2); BitVector b(n); size_t ones = 0; for (size_t i = 0; i < n; i++) { bool x = kind == 0 ? mix(i) & 1 : kind == 1 ? i % 1500 == 1499 : i % 9 != 0; b[i] = x; ones += x; } if (!S) b[n / 2 + 1] = sym_bool(); SuccinctBitVector<S> s(b), t; if (sym_pick(0, 1)) t = SuccinctBitVector<S>(BitVector((size_t)3000, true));
  VStream v(n * 2 + 4096); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); ASSERT(t.size() == n && t.size_in_bytes() == s.size_in_bytes(), "size"); bool ok = true, rk = true, sl = true; size_t c = 0; for (size_t i = 0; i < n; i++) { if (look(i, n)) { ok = ok & (t[i] == (bool)b[i]); rk = rk & (t.rank(i) == c) & (t.rank_0(i) == i - c); if constexpr (S) { if (b[i]) sl = sl & (t.select(c) == i); } } c += (bool)b[i]; } ASSERT(ok, "bits"); ASSERT(rk, "ranks"); ASSERT(sl, "selects");
}
ENTRY(R01_large_rank, "rank vectors of 255..4097 (thorough 66000) bits in 3 densities, one of them symbolic") { largeSuccinct<false>(); }
ENTRY(R01_large_select, "select vectors of 255..4097 (thorough 66000) fixed bits in 3 densities") { largeSuccinct<true>(); }
ENTRY(R01_large_fit, "FitVectors of 7, 33 and 64 bits: " RL) { STEPS(60000000); static const size_t W[] = {7, 33, 64}; size_t n = big(), w = W[sym_pick(0, 2)]; uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1; FitVector s(w, n, 0); for (size_t i = 0; i < n; i++) s[i] = mix(i) & m; uint64_t x = sym_bits(w); s[n / 2] = x; VStream v(n * 8 + 4096); saved(v, [&](std::ostream &os) { s.Write(os); }); FitVector t(7, 20, 5); t = FitVector(v.is()); behind(v); ASSERT(t.size() == n && t.unit_width() == w, "size and width"); bool ok = true; for (size_t i = 0; i < n; i++) if (look(i, n) || i == n / 2) ok = ok & (t[i] == (i == n / 2 ? x : mix(i) & m)); ASSERT(ok, "elements"); }
ENTRY(R01_large_multi, "MultipleVectors of fields of 1, 8 and 2 bytes: " RL) { STEPS(60000000); size_t n = big(); MultipleVector s({1, 8, 2}), t; if (sym_pick(0, 1)) { t = MultipleVector({3, 5}); t.push_back({7, 8}); } for (size_t i = 0; i < n; i++) s.push_back({mix(i) & 255, mix(i + 1), mix(i + 2) & 65535}); uint64_t x = sym_u64(); s.set_nested_element<1>(n / 2, x); VStream v(n * 11 + 4096); saved(v, [&](std::ostream &os) { s.StoreTo(os); }); t.LoadFrom(v.is()); behind(v); ASSERT(t.size() == n && t.block_size() == 11, "size"); bool ok = true; for (size_t i = 0; i < n; i++) if (look(i, n) || i == n / 2) ok = ok & (t.nested_element<0>(i) == (mix(i) & 255)) & (t.nested_element<1>(i) == (i == n / 2 ? x : mix(i + 1))) & (t.nested_element<2>(i) == (mix(i + 2) & 65535)); ASSERT(ok, "fields"); }
template <unsigned U> static void largeMultibit() { STEPS(90000000); size_t n = big(); MultiBitVector<U> s, t; if (sym_pick(0, 1)) { for (size_t i = 0; i < 900; i++) t.set(i, 1); t.build(); } std::vector<size_t> c(1u << U); uint8_t sv = sym_bits(U); auto at = [&](size_t i) -> size_t { return i == n / 3 ? sv : mix(i) >> 3 & ((1u << U) - 1); }; for (size_t i = 0; i < n; i++) s.set(i, at(i)); s.build();
  VStream v(n * 3 + 8192); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); bool ok = true, rk = true; for (size_t i = 0; i < n; i++) { if (look(i, n)) { ok = ok & (t[i] == at(i)); if (i != n / 3 && at(i)) rk = rk & (t.rank(i) == c[at(i)]); } if (i == n / 3) { for (size_t y = 0; y < c.size(); y++) c[y] += sv == y; } else c[at(i)]++; } ASSERT(ok, "symbols"); ASSERT(rk, "ranks"); }
ENTRY(R01_large_multibit, "symbols of 1, 2 and 3 bits: 255..4097 (thorough 66000) of fixed content but one, into fresh and non-empty containers") { size_t u = sym_pick(1, 3); if (u == 1) largeMultibit<1>(); else if (u == 2) largeMultibit<2>(); else largeMultibit<3>(); }

ENTRY(R02_large_dac, "DacVectors of 255, 256, 300 (thorough 4097) elements of all bit lengths, automatic and 3 fixed layers, one element symbolic") { STEPS(90000000);
  size_t n = LN[sym_pick(0, TIER(2, 3))]; std::vector<uint64_t> r(n); for (size_t i = 0; i < n; i++) r[i] = mix(i) >> (mix(i + 3) % (i % 5 ? 13 : 56) + 8); bool fixed = sym_pick(0, 1); r[1] = 1ull << 55; r[n / 2] = ofLength(sym_pick(0, 1) ? 56 : 3);
  DacVector s = fixed ? DacVector(r, std::vector<size_t>{9, 17, 30}) : DacVector(r), t; if (sym_pick(0, 1)) t = DacVector(std::vector<uint64_t>{1, 1ull << 40, 3, 70000}); VStream v(n * 40 + 16384); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v);
  ASSERT(t.size() == n && t.num_layers() == s.num_layers() && t.size_in_bytes() == s.size_in_bytes(), "size"); bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (t[i] == r[i]); ASSERT(ok, "elements"); HIT(t.num_layers() > 1, "several layers"); EXPECT("several layers"); size_t k = 0; bool same = true; for (auto x : t) { if (k < n && look(k, n)) same = same & (x == r[k]); k++; } ASSERT(k == n && same, "iteration"); }
ENTRY(R02_large_wavelet, "WaveletTrees of 255, 256, 300 and 4097 (thorough 66000) symbols of heights 1, 3, 5 and 8, fixed content") { STEPS(200000000);
  size_t n = big(); static const size_t H[] = {1, 3, 5, 8}; size_t h = H[sym_pick(0, 3)]; std::vector<uint8_t> r(n); for (size_t i = 0; i < n; i++) r[i] = mix(i) >> 5 & ((1u << h) - 1); r[7] = (1u << h) - 1; WaveletTree s(r), t(std::vector<uint8_t>{0, 1, 5, 2}); VStream v(n * 8 + 65536 * 4); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v);
  ASSERT(t.size() == n && t.size_in_bytes() == s.size_in_bytes(), "size"); bool ok = true, rk = true; std::vector<size_t> c(256); for (size_t i = 0; i < n; i++) { if (look(i, n)) { ok = ok & (t[i] == r[i]); rk = rk & (t.rank(i) == c[r[i]]) & (t.rank(1, i) == c[1]); auto a = t.AccessAndRank(i); rk = rk & (a.first == r[i]) & (a.second == c[r[i]]); } c[r[i]]++; } ASSERT(ok, "access"); ASSERT(rk, "rank"); }
static Keys manyKeys(size_t n, size_t letters, size_t len) { std::set<std::vector<unsigned char>> s; for (uint64_t x = 1; s.size() < n;) { std::vector<unsigned char> w; x = mix(x); for (size_t l = 1 + (x >> 20) % len; l-- > 0;) { x = mix(x); w.push_back((unsigned char)(1 + (x >> 20) % letters * (253 / letters))); } s.insert(w); } Keys k; for (auto &w : s) k.push_back(std::string(w.begin(), w.end())); return k; }
#define RK "60 and 250 (thorough 1000) keys of up to 3 letters out of 12, or up to 9 out of 2, or up to 2 out of 253, into fresh and non-empty dictionaries; a query that differs from a key in any one byte"
template <class F> static void largeDict(F check) { STEPS(200000000); size_t kind = sym_pick(0, 2), n = sym_pick(0, 1) ? TIER(250, 1000) : 60; Keys k = kind == 0 ? manyKeys(n, 12, 3) : kind == 1 ? manyKeys(n > 250 ? 500 : n, 2, 9) : manyKeys(n, 253, 2); std::string q = k[sym_pick(0, 1) ? k.size() / 2 : k.size() - 1]; uint8_t c = sym_u8(); size_t at = q.size() - 1; size_t want = k.size(); for (size_t i = 0; i < k.size(); i++) if (k[i].size() == q.size() && k[i].compare(0, at, q, 0, at) == 0) want = (unsigned char)k[i][at] == c ? i : want; q[at] = (char)c; check(k, q, want); }
ENTRY(R02_large_samc, RK) { EXPECT("accepted"); EXPECT("rejected"); largeDict([](const Keys &k, const std::string &q, size_t want) { typedef Samc<uint32_t, false> T; T s(k.begin(), k.end()); T t = target<T>(); VStream v(1 << 18); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); bool all = true; for (auto &x : k) all = all && t.accept(x); ASSERT(all, "keys"); bool r = t.accept(q); ASSERT(r == (want < k.size()), "exactly the keys"); HIT(r, "accepted"); HIT(!r, "rejected"); }); }
ENTRY(R02_large_dict, "SamcDict: " RK) { EXPECT("accepted"); EXPECT("rejected"); largeDict([](const Keys &k, const std::string &q, size_t want) { typedef SamcDict<uint32_t> T; T s(k.begin(), k.end()); T t = target<T>(); VStream v(1 << 18); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v); bool all = true; for (auto &x : k) { size_t i = s.lookup(x); all = all && t.lookup(x) == i && t.access(i) == x; } ASSERT(all, "numbers and keys"); size_t r = t.lookup(q), w = s.lookup(q); ASSERT((r == T::kSearchError) == (want == k.size()) && r == w, "exactly the keys"); HIT(want < k.size(), "accepted"); HIT(want == k.size(), "rejected"); }); }
ENTRY(R02_large_suffix, "suffix arrays of 100, 255, 256 and 300 (thorough 2000) letters over 2 and 200 letters, into fresh and non-empty ones") { STEPS(200000000);
  static const size_t N[] = {100, 255, 256, 300, 2000}; size_t n = N[sym_pick(0, TIER(3, 4))], l = sym_pick(0, 1) ? 2 : 200; std::string x(n, 'a'); for (size_t i = 0; i < n; i++) x[i] = (char)(1 + mix(i) % l); SuffixArray s(x), t; if (sym_pick(0, 1)) t = SuffixArray(std::string("mississippi")); VStream v(n * 20 + 4096), a(n * 20 + 4096), b(n * 20 + 4096), c(n * 20 + 4096), d(n * 20 + 4096); saved(v, [&](std::ostream &os) { s.Write(os); }); t.Read(v.is()); behind(v);
  saved(a, [&](std::ostream &os) { s.WriteSA(os); }); saved(b, [&](std::ostream &os) { t.WriteSA(os); }); saved(c, [&](std::ostream &os) { s.WriteLCP(os); }); saved(d, [&](std::ostream &os) { t.WriteLCP(os); }); ASSERT(a.written() == b.written() && c.written() == d.written(), "sizes"); bool same = true; for (size_t i = 0; same && i < a.written(); i++) same = same & (a.byte(i) == b.byte(i)); ASSERT(same, "suffix array"); same = true; for (size_t i = 0; same && i < c.written(); i++) same = same & (c.byte(i) == d.byte(i)); ASSERT(same, "LCP array");
  for (size_t i = 0; i < n; i += 13) { ASSERT(t.char_at(i) == (uint8_t)x[i], "text"); ASSERT(t.suffix(i) == std::string_view(x).substr(i), "suffix"); } }
