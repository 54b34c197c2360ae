// C01: BijectiveHash. C02: CHT. C03: CDRWArray, CDRWVector.
#include "sym.h"
#include <sim_ds/BijectiveHash.hpp>
using sim_ds::SplitMixHash;

ENTRY(C01_inverse, "every width 1..64, every word of that width") {
  unsigned w = sym_pick(1, 64); uint64_t x = sym_bits(w); SplitMixHash h(w);
  uint64_t y = h.hash(x), z = h.ihash(x); OBS(y); OBS(z);
  ASSERT(w == 64 || (y >> w) == 0, "hash(x) is below 2^w"); ASSERT(w == 64 || (z >> w) == 0, "ihash(x) is below 2^w");
  ASSERT(h.ihash(y) == x, "ihash(hash(x)) = x"); ASSERT(h.hash(z) == x, "hash(ihash(x)) = x");
}
ENTRY(C01_default, "the default width, every 64-bit word") { uint64_t x = sym_u64(); SplitMixHash h; ASSERT(h.ihash(h.hash(x)) == x, "ihash(hash(x)) = x"); ASSERT(h.hash(h.ihash(x)) == x, "hash(ihash(x)) = x"); }

// ---- C02
#include <sim_ds/FitVector.hpp>
#include <sim_ds/CHT.hpp>
using sim_ds::CHT;
struct Mirror { unsigned w; explicit Mirror(unsigned w = 64) : w(w) {} uint64_t hash(uint64_t x) const { return x; } uint64_t ihash(uint64_t x) const { return x; } }; // identity: chosen collisions
struct Op { bool set; uint64_t k, v; };
// what the history says about key p
static void expected(const std::vector<Op> &h, uint64_t p, bool &found, uint64_t &val) { found = false; val = 0; for (auto &o : h) { bool hit = o.k == p; val = hit && o.set ? o.v : val; found = hit ? o.set : found; } }
static size_t present(const std::vector<Op> &h) { // number of keys set and not erased since
  size_t n = 0; for (size_t i = 0; i < h.size(); i++) { bool last = true; for (size_t j = i + 1; j < h.size(); j++) last = last && h[j].k != h[i].k; n += last && h[i].set; } return n; }
template <class T> static void applyOp(T &t, std::vector<Op> &h, bool set, uint64_t k, unsigned vbits) {
  uint64_t v = set ? sym_bits(vbits) : 0; if (set) t.set(k, v); else t.erase(k); h.push_back({set, k, v}); }
template <class T> KEEP static void agree(const T &t, const std::vector<Op> &h, uint64_t p) {
  bool f; uint64_t v; expected(h, p, f, v); auto r = t.get(p);
  ASSERT(r.first == f, "get finds exactly the keys set and not erased since"); ASSERT(!f || r.second == v, "get returns the value last set"); ASSERT(t.size() == present(h), "size is the number of keys present");
}
// ops: s = set, e = erase, ? = either. The bucket of each key is picked among nb buckets around the table's end, its
// quotient is symbolic; fixLow: the low bits of the quotient (which choose the bucket after growing) are picked as well.
template <class T> struct Case {
  T t; unsigned bb = 0, qbits, vbits; uint64_t nb, first; size_t buckets; std::vector<Op> h; unsigned fixLow;
  Case(T &&x, size_t buckets, unsigned qbits, unsigned vbits, uint64_t nb, unsigned fixLow = 0) : t(std::move(x)), qbits(qbits), vbits(vbits), nb(nb), buckets(buckets), fixLow(fixLow) { while ((1u << bb) < buckets) bb++; first = buckets - nb / 2; }
  uint64_t key(bool probe) {
    uint64_t b = (first + (probe ? sym_range(0, nb - 1) : sym_pick(0, nb - 1))) & (buckets - 1);
    uint64_t q = fixLow < qbits ? sym_bits(qbits - fixLow) << fixLow : 0; if (fixLow) q |= sym_pick(0, (1u << fixLow) - 1);
    return q << bb | b;
  }
  template <class H> void run(const char *ops, H hasher, int merge = 0) {
    STEPS(3000000); MERGE(merge);
    for (const char *o = ops; *o; o++) { bool set = *o == 's' || (*o == '?' && sym_pick(0, 1)); applyOp(t, h, set, hasher.ihash(key(false)), vbits); }
    agree(t, h, hasher.ihash(key(true)));
  }
};
template <unsigned MLF = 50> static void mirror(const char *ops, size_t buckets, unsigned qbits, uint64_t nb, unsigned fixLow = 0, int merge = 0) {
  unsigned bb = 0; while ((1u << bb) < buckets) bb++; Case<CHT<8, MLF, Mirror>> c(CHT<8, MLF, Mirror>(bb + qbits, buckets), buckets, qbits, 8, nb, fixLow); c.run(ops, Mirror(bb + qbits), merge); }
#define CB "keys of any quotient in buckets around the end of the table, any values, any probe key"
ENTRY(C02_three, "8 buckets, every history of 3 operations, 4 buckets in use; " CB) { mirror("???", 8, 2, 4); }
ENTRY(C02_sets, "8 buckets, 3 sets then any operation, 3 buckets in use; " CB) { mirror("sss?", 8, 2, 3); }
ENTRY(C02_erased, "8 buckets, 3 sets, an erase, then any operation, 2 (thorough 3) buckets in use; " CB) { mirror("sse?", 8, 2, 3); }
ENTRY(C02_erased_more, "8 buckets, 3 sets, an erase, then any operation, 2 buckets in use; " CB) { mirror("ssse?", 8, 1, 2); }
ENTRY(C02_fill, "8 buckets, 4 sets, 2 buckets in use; " CB) { mirror("ssss", 8, 2, 2); }
ENTRY(C02_grow, "8 buckets, 5 sets (growing), 2 buckets in use, quotients of 2 bits; " CB) { mirror("sssss", 8, 2, 2, 1); }
ENTRY(C02_grow_wide, "8 buckets, 5 sets (growing), 1 bucket in use, quotients of 4 bits; " CB) { mirror("sssss", 8, 4, 1, 1); }
ENTRY(C02_grow_erased, "8 buckets, 4 sets, an erase, a set (growing drops the erased key), 1 bucket in use; " CB) { mirror("sssses", 8, 3, 1, 1); }
ENTRY(C02_two, "2 buckets (growing and shrinking at once), a set then any 2 operations; " CB) { mirror("s??", 2, 2, 2); }
ENTRY(C02_two_four, "2 buckets (growing and shrinking at once), every 4 operations, quotients of 1 bit; " CB) { mirror("s???", 2, 1, 2, 1); }
ENTRY(C02_one, "1 bucket, every history of 3 operations on 4-bit keys; " CB) { STEPS(2000000); MERGE(1); CHT<8, 50, Mirror> t(4, 1); std::vector<Op> h; for (int i = 0; i < 3; i++) { bool set = sym_pick(0, 1); uint64_t k = sym_bits(4); applyOp(t, h, set, k, 8); } agree(t, h, sym_bits(4)); }
ENTRY(C02_full, "8 buckets filled to 7 of 8 (load limit 90%), quotient of 1 bit, 2 buckets in use, then any operation; " CB) { mirror<90>("ssss?", 8, 2, 2, 0); }
ENTRY(C02_dense, "4 buckets (load limit 90%), 3 sets, an erase, any operation; " CB) { mirror<90>("sse?", 4, 2, 3, 1); }
ENTRY(C02_anykeys, "8 buckets, every history of 3 operations on symbolic 5-bit keys, merged paths; " CB) { STEPS(2000000); MERGE(1); CHT<8, 50, Mirror> t(5, 8); std::vector<Op> h; for (int i = 0; i < 3; i++) { bool set = sym_pick(0, 1); uint64_t k = sym_bits(5); applyOp(t, h, set, k, 8); } agree(t, h, sym_bits(5)); }
// the real hash and other key and value widths
static unsigned kb(unsigned q) { return 3 + q; }
ENTRY(C02_hash, "the library's hash, 6-bit keys, 8 buckets, 2 sets then any 2 operations; " CB) { Case<CHT<8>> c(CHT<8>(kb(3)), 8, 3, 8, 2); c.run("ss??", SplitMixHash(kb(3))); }
ENTRY(C02_hash_wide, "the library's hash, 60-bit keys, 64-bit values, 8 buckets, a set then any 2 operations on any keys that meet in one of 2 buckets") {
  STEPS(3000000); MERGE(0); CHT<64> t(60); SplitMixHash hs(60); std::vector<Op> h;
  auto word = [&]() { uint64_t b = 7 * sym_pick(0, 1); return sym_bits(57) << 3 | b; }; // the history is kept by hash values, which C01 shows to be as good as keys
  for (int i = 0; i < 3; i++) { bool set = i == 0 || sym_pick(0, 1); uint64_t x = word(), v = set ? sym_u64() : 0; if (set) t.set(hs.ihash(x), v); else t.erase(hs.ihash(x)); h.push_back({set, x, v}); }
  uint64_t x = word(), v; bool f; expected(h, x, f, v); auto r = t.get(hs.ihash(x));
  ASSERT(r.first == f, "get finds exactly the keys set and not erased since"); ASSERT(!f || r.second == v, "get returns the value last set"); ASSERT(t.size() == present(h), "size is the number of keys present"); }
ENTRY(C02_hash_narrow, "the library's hash, keys of 1..3 bits (no quotient), 8 buckets, every history of 3 operations") {
  STEPS(2000000); unsigned w = sym_pick(1, 3); CHT<3> t(w); std::vector<Op> h; for (int i = 0; i < 3; i++) { bool set = sym_pick(0, 1); uint64_t k = sym_pick(0, (1u << w) - 1); applyOp(t, h, set, k, 3); } agree(t, h, sym_bits(w)); }
ENTRY(C02_dynamic_width, "CHT<0> with the value width set to 1, 33 or 64; a set then any 2 operations; growing included") {
  static const unsigned W[] = {1, 33, 64}; unsigned w = W[sym_pick(0, 2)]; CHT<0> t(kb(1), 2); t.set_value_width(w); Case<CHT<0>> c(std::move(t), 2, 3, w, 2, 1); c.run("s??", SplitMixHash(kb(1))); }
ENTRY(C02_reserve, "reserve(n) for n up to 9 after 2 sets and an erase; " CB) {
  Case<CHT<8, 50, Mirror>> c(CHT<8, 50, Mirror>(5, 8), 8, 2, 8, 2, 1); for (int i = 0; i < 3; i++) { uint64_t k = c.key(false); applyOp(c.t, c.h, i < 2, k, 8); } c.t.reserve(sym_pick(0, 9)); agree(c.t, c.h, c.key(true)); }
// long histories of fixed keys; one value is symbolic
static uint64_t mixed(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
template <class T> static void longHistory(T t, unsigned keyBits, unsigned valBits, size_t n, size_t kind) { STEPS(400000000); MERGE(0);
  auto keyOf = [&](uint64_t i) { uint64_t k = kind == 0 ? mixed(i) : kind == 1 ? i : i << (keyBits > 16 ? keyBits - 16 : 0) | (i & 1); return keyBits >= 64 ? k : k & ((1ull << keyBits) - 1); }; uint64_t vm = valBits >= 64 ? ~0ull : (1ull << valBits) - 1;
  size_t span = n / 2 + 1; std::vector<char> in(span, 0); std::vector<uint64_t> val(span, 0), key(span); for (size_t i = 0; i < span; i++) key[i] = keyOf(i); size_t cnt = 0; std::vector<char> dup(span, 0); if (keyBits <= 12) { std::vector<char> seen(1u << keyBits); for (size_t i = 0; i < span; i++) { dup[i] = seen[key[i]]; seen[key[i]] = 1; } } else { std::vector<uint64_t> k2(key); std::sort(k2.begin(), k2.end()); for (size_t i = 0; i + 1 < span; i++) if (k2[i] == k2[i + 1]) return; }
  uint64_t sv = sym_bits(valBits); size_t last = span;
  for (size_t k = 0; k < n; k++) { size_t i = k < span / 2 ? k * 2 % span : mixed(k * 31 + kind) % span; if (dup[i]) continue; bool set = k < span / 2 || mixed(k * 17) % 5 < 3; if (set) { uint64_t v = k == n / 3 ? sv : mixed(k) & vm; if (k == n / 3) last = i; else if (i == last) last = span; t.set(key[i], v); cnt += !in[i]; in[i] = 1; val[i] = v; } else { t.erase(key[i]); cnt -= in[i]; in[i] = 0; } if (k % 97 == 0) ASSERT(t.size() == cnt, "size is the number of keys present"); }
  ASSERT(t.size() == cnt, "size is the number of keys present"); bool f = true, v = true; for (size_t i = 0; i < span; i++) if (!dup[i]) { auto r = t.get(key[i]); f = f & (r.first == (bool)in[i]); if (in[i] && r.first) v = v & (r.second == val[i]); } ASSERT(f, "get finds exactly the keys set and not erased since"); ASSERT(v, "get returns the value last set"); HIT(cnt > n / 8, "many");
  if (keyBits > 12) for (size_t i = span; i < span + 40; i++) ASSERT(!t.get(keyOf(i)).first || kind == 2, "a key never set is not found");
}
#define CL "fixed histories of 60, 300 and 1200 (thorough 8000) sets and erases, then every key is looked up; pseudo-random, consecutive and spread keys; one value symbolic"
static size_t lengthOf() { static const size_t N[] = {60, 300, 1200, 8000}; return N[sym_pick(0, TIER(2, 3))]; }
ENTRY(C02_long, "8-bit values, 32-bit keys, " CL) { EXPECT("many"); size_t n = lengthOf(), k = sym_pick(0, 2); longHistory(CHT<8>(32), 32, 8, n, k); }
ENTRY(C02_long_wide, "64-bit values, 60-bit keys, " CL) { EXPECT("many"); size_t n = lengthOf(), k = sym_pick(0, 2); longHistory(CHT<64>(60), 60, 64, n, k); }
ENTRY(C02_long_full, "load limit 90%, 20-bit keys, 16 initial buckets, " CL) { EXPECT("many"); size_t n = lengthOf(), k = sym_pick(0, 2); longHistory(CHT<16, 90>(20, 16), 20, 16, n, k); }
ENTRY(C02_long_narrow, "12-bit keys, 2 initial buckets, " CL) { EXPECT("many"); size_t n = lengthOf(), k = sym_pick(0, 1); longHistory(CHT<8>(12, 2), 12, 8, n, k); }

// ---- C03
#include <sim_ds/CDRWArray.hpp>
using sim_ds::CDRWArray; using sim_ds::CDRWVector;
static uint64_t ofLength(size_t len) { return len == 0 ? 0 : (1ull << (len - 1)) | (len > 1 ? sym_bits(len - 1) : 0); } // any value of that bit length
static uint64_t anyValue(unsigned kinds) { static const size_t L[] = {0, 64, 1, 7, 2, 63, 33}; return ofLength(L[sym_pick(0, kinds - 1)]); }
static void arr(size_t n, int steps, unsigned kinds) {
  STEPS(3000000); CDRWArray a(n); std::vector<uint64_t> r(n, 0); ASSERT(a.size() == n, "size");
  for (int k = 0; k < steps; k++) { size_t i = sym_pick(0, n - 1); uint64_t v = anyValue(kinds); a.set(i, v); r[i] = v; }
  for (size_t i = 0; i < n; i++) ASSERT(a.get(i) == r[i], "get(i) is the value last set at i, 0 if never set");
}
#define AB "bit lengths 0, 64, 1, 7, 2, every value of that length"
ENTRY(C03_array1, "arrays of 1 element, every history of 4 sets, " AB) { arr(1, 4, 5); }
ENTRY(C03_array3, "arrays of 3 elements, every history of 3 sets, " AB) { arr(3, 3, 4); }
ENTRY(C03_array9, "arrays of 9 elements, every history of 2 sets, " AB) { arr(9, 2, 5); }
ENTRY(C03_any, "arrays of 2 elements, every 2 values of any bit length in turn at one index") {
  STEPS(3000000); CDRWArray a(2); size_t l = sym_pick(0, 64), m = sym_pick(0, TIER(8, 64)) ; if (TIER(1, 0)) m = m * 8; uint64_t x = ofLength(l), y = ofLength(m); a.set(1, x); ASSERT(a.get(1) == x && a.get(0) == 0, "get(i) is the value last set at i, 0 if never set"); a.set(1, y); ASSERT(a.get(1) == y && a.get(0) == 0, "get(i) is the value last set at i, 0 if never set"); }
ENTRY(C03_open, "arrays of 2 elements, every history of 2 sets of any 10-bit values, any bit length decided by the code's own branches") { STEPS(3000000); MERGE(0); CDRWArray a(2); uint64_t r[2] = {0, 0}; for (int k = 0; k < 2; k++) { size_t i = sym_pick(0, 1); uint64_t v = sym_bits(10); a.set(i, v); r[i] = v; ASSERT((a.get(0) == r[0]) & (a.get(1) == r[1]), "get(i) is the value last set at i, 0 if never set"); } }
ENTRY(C03_open_one, "arrays of 1 element, one set of any 64-bit value") { STEPS(3000000); MERGE(0); CDRWArray a(1); uint64_t v = sym_u64(); a.set(0, v); ASSERT(a.get(0) == v, "get(i) is the value last set at i"); }
ENTRY(C03_range, "arrays built from ranges of 0..3 values") { std::vector<uint64_t> v; size_t n = sym_pick(0, 3); for (size_t i = 0; i < n; i++) v.push_back(anyValue(5)); CDRWArray a(v.begin(), v.end()); ASSERT(a.size() == n, "size"); for (size_t i = 0; i < n; i++) ASSERT(a.get(i) == v[i], "get(i) is the source value"); }
// enough equal-width values that one table grows
ENTRY(C03_dense, "arrays of 8 elements, all set with one bit length, then one set anew with any length") {
  STEPS(6000000); size_t l = sym_pick(0, 1) ? 5 : 1; CDRWArray a(8); std::vector<uint64_t> r(8); for (size_t i = 0; i < 8; i++) { r[i] = ofLength(l); a.set(i, r[i]); } size_t i = sym_pick(0, 7); r[i] = anyValue(4); a.set(i, r[i]); for (size_t k = 0; k < 8; k++) ASSERT(a.get(k) == r[k], "get(i) is the value last set at i"); }
struct VRef { std::vector<uint64_t> v; std::vector<char> known; size_t size() const { return v.size(); } };
static void vec(size_t start, int steps) {
  STEPS(9000000); CDRWVector c(start); VRef r; r.v.assign(start, 0); r.known.assign(start, 1);
  for (int k = 0; k < steps; k++) switch (sym_pick(0, 6)) {
  case 0: { uint64_t x = anyValue(3); c.push_back(x); r.v.push_back(x); r.known.push_back(1); break; }
  case 1: if (!r.size()) return; c.pop_back(); r.v.pop_back(); r.known.pop_back(); break;
  case 2: { if (!r.size()) return; size_t i = sym_pick(0, r.size() - 1); uint64_t x = anyValue(3); c.set(i, x); r.v[i] = x; r.known[i] = 1; break; }
  case 3: { size_t n = sym_pick(0, 4); c.resize(n); r.v.resize(n, 0); r.known.resize(n, 0); break; }
  case 4: c.reserve(sym_pick(0, 1) ? 5 : 1); break;
  case 5: c.shrink_to_fit(); break;
  case 6: c.clear(); r.v.clear(); r.known.clear(); break;
  }
  ASSERT(c.size() == r.size() && c.empty() == (r.size() == 0), "size"); ASSERT(c.capacity() >= c.size(), "capacity");
  for (size_t i = 0; i < r.size(); i++) if (r.known[i]) ASSERT(c.get(i) == r.v[i], "get(i) is the value last written there");
}
ENTRY(C03_vector_empty, "CDRWVector: every history of 3 (thorough 4) operations from empty") { vec(0, TIER(3, 4)); }
ENTRY(C03_vector_sized, "CDRWVector: every history of 2 (thorough 3) operations from 3 elements") { vec(3, TIER(2, 3)); }
ENTRY(C03_vector_pushes, "CDRWVector: 6 push_backs, then 5 pop_backs, every element checked") {
  STEPS(9000000); CDRWVector c; std::vector<uint64_t> r; for (int i = 0; i < 6; i++) { r.push_back(ofLength(i % 3 == 0 ? 9 : 4)); c.push_back(r.back()); }
  for (int k = 0; k < 6; k++) { ASSERT(c.size() == r.size(), "size"); for (size_t i = 0; i < r.size(); i++) ASSERT(c.get(i) == r[i], "get(i) is the value last written there"); c.pop_back(); r.pop_back(); } }
// long histories of fixed lengths and indices; one value symbolic
static uint64_t fixedValue(size_t k, size_t kind) { uint64_t x = mixed(k); return kind == 0 ? x >> (x % 64) : kind == 1 ? x & 0xff : k % 16 == 3 ? x : k & 1; }
ENTRY(C03_long_array, "arrays of 40, 300 and 1000 (thorough 5000) elements, 3 histories of twice as many sets of values of all lengths; one value symbolic") { STEPS(400000000); MERGE(0);
  static const size_t N[] = {40, 300, 1000, 5000}; size_t n = N[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 2); CDRWArray a(n); std::vector<uint64_t> r(n, 0); for (size_t k = 0; k < 2 * n; k++) { size_t i = k < n / 2 ? k : mixed(k * 7) % n; uint64_t v = k == n ? ofLength(9) : fixedValue(k, kind); a.set(i, v); r[i] = v; }
  bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (a.get(i) == r[i]); ASSERT(ok, "get(i) is the value last set at i, 0 if never set"); ASSERT(a.size() == n, "size"); }
ENTRY(C03_long_vector, "CDRWVector: 40, 300 and 1000 (thorough 5000) push_backs, half as many sets, a quarter pop_backs, then push_backs; 3 kinds of values") { STEPS(400000000); MERGE(0);
  static const size_t N[] = {40, 300, 1000, 5000}; size_t n = N[sym_pick(0, TIER(2, 3))], kind = sym_pick(0, 2); CDRWVector c; std::vector<uint64_t> r; for (size_t k = 0; k < n; k++) { uint64_t v = k == n / 2 ? ofLength(9) : fixedValue(k, kind); c.push_back(v); r.push_back(v); } for (size_t k = 0; k < n / 2; k++) { size_t i = mixed(k * 7) % n; uint64_t v = fixedValue(k + n, kind); c.set(i, v); r[i] = v; }
  for (size_t k = 0; k < n / 4; k++) { c.pop_back(); r.pop_back(); } bool ok = c.size() == r.size(); for (size_t i = 0; ok && i < r.size(); i++) ok = ok & (c.get(i) == r[i]); ASSERT(ok, "get(i) is the value last written there"); for (size_t k = 0; k < n / 2; k++) { uint64_t v = fixedValue(k + 5, kind); c.push_back(v); r.push_back(v); } ok = c.size() == r.size(); for (size_t i = 0; ok && i < r.size(); i++) ok = ok & (c.get(i) == r[i]); ASSERT(ok, "get(i) is the value last written there"); }
