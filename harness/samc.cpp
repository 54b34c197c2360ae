// A01: Samc accepts exactly its keys. A02: SamcDict numbers them bijectively.
#include "sym.h"
#include <sim_ds/string_util/Samc.hpp>
using sim_ds::Samc; using sim_ds::SamcDict;
typedef std::vector<std::string> Keys;

struct Q { unsigned char *p; size_t n; explicit Q(size_t n) : p(new unsigned char[n]), n(n) { for (size_t i = 0; i < n; i++) p[i] = sym_u8(); } ~Q() { delete[] p; } Q(const Q &) = delete; std::string_view sv() const { return std::string_view((const char *)p, n); } };
static size_t find(const Keys &ks, const Q &q) { size_t r = ks.size(); for (size_t i = 0; i < ks.size(); i++) { if (ks[i].size() != q.n) continue; bool e = true; for (size_t j = 0; j < q.n; j++) e = e & ((unsigned char)ks[i][j] == q.p[j]); r = e ? i : r; } return r; }
template <class C, bool L> static void accepts(const Keys &ks, size_t maxq) {
  Samc<C, L> s(ks.begin(), ks.end()); for (auto &k : ks) ASSERT(s.accept(k), "every key is accepted");
  Q q(sym_pick(0, maxq)); bool in = find(ks, q) < ks.size(), r = s.accept(q.sv()); ASSERT(r == in, "a string is accepted if and only if it is a key"); HIT(r, "accepted"); HIT(!r, "rejected");
}
template <class C> static void numbers(const Keys &ks, size_t maxq) {
  SamcDict<C> s(ks.begin(), ks.end()); std::vector<char> used(ks.size()); bool ok = true, back = true; std::vector<size_t> ids;
  for (auto &k : ks) { size_t v = s.lookup(k); ok = ok && v < ks.size() && !used[v]; if (!ok) break; used[v] = 1; ids.push_back(v); back = back && s.access(v) == k; }
  ASSERT(ok, "lookup maps the n keys one-to-one onto 0..n-1"); ASSERT(back, "access inverts lookup");
  Q q(sym_pick(0, maxq)); size_t i = find(ks, q), v = s.lookup(q.sv()); ASSERT((v == SamcDict<C>::kSearchError) == (i == ks.size()), "lookup fails exactly for strings that are no key"); if (i < ks.size()) ASSERT(v == ids[i], "lookup of a key is its number"); HIT(i < ks.size(), "accepted"); HIT(i == ks.size(), "rejected");
}
// key sets: any subset of a sorted universe
static Keys subset(std::initializer_list<const char *> u) { Keys k; for (auto w : u) if (sym_pick(0, 1)) k.push_back(w); return k; }
static Keys binary() { return subset({"", "a", "aa", "ab", "b", "ba", "bb"}); }
static Keys odd() { return subset({"\1", "\1\1", "\1\x80", "a", "\x80", "\x80\xfe", "\xfe\1\xfe", "\xfe\xfe"}); }
static Keys deep() { return subset({"a", "aaaa", "aab", "abab", "b", "bbab", "bbb"}); }
static Keys single() { return Keys(1, std::string(1, (char)sym_pick(1, 254))); }
// pseudo-random sorted sets: n words of up to len letters over an alphabet of the given size
static Keys random_set(size_t n, size_t letters, size_t len, uint32_t seed) {
  std::set<std::vector<unsigned char>> s; uint32_t x = seed; auto rnd = [&](size_t m) { x = x * 1103515245u + 12345u; return ((x >> 16) & 0x7fff) % m; };
  while (s.size() < n) { size_t l = 1 + rnd(len); std::vector<unsigned char> w; for (size_t i = 0; i < l; i++) w.push_back((unsigned char)(1 + rnd(letters) * (253 / letters))); s.insert(w); }
  Keys k; for (auto &w : s) k.push_back(std::string(w.begin(), w.end())); return k;
}
#define BB "any subset of the 7 words of up to 2 letters of {a, b}; any query of 0..4 bytes"
#define BO "any subset of 8 words over {1, 'a', 0x80, 0xfe} of up to 3 letters; any query of 0..4 bytes"
#define BD "any subset of 7 words of up to 4 letters of {a, b}; any query of 0..5 bytes"
#define BS "every set of one 1-byte key; any query of 0..2 bytes"
#define BR1 "pseudo-random sets of 60, 200 and 500 words of up to 3 letters over 12 letters, 2 (thorough 10) seeds; any query of 0..4 bytes"
#define BR2 "pseudo-random sets of 100 and 400 words of up to 2 bytes over 253 letters, 2 (thorough 10) seeds; any query of 0..3 bytes"
#define BL "pseudo-random sets of 40 and 150 words of up to 12 letters over 2 letters, 2 (thorough 10) seeds; any query of 0..3 bytes"
#define SET(P, name, call) \
  ENTRY(P##_##name##_binary, BB) { STEPS(2000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = binary(); size_t q = 4; call; } \
  ENTRY(P##_##name##_odd, BO) { STEPS(2000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = odd(); size_t q = 4; call; } \
  ENTRY(P##_##name##_deep, BD) { STEPS(2000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = deep(); size_t q = 5; call; } \
  ENTRY(P##_##name##_single, BS) { STEPS(2000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = single(); size_t q = 2; call; } \
  ENTRY(P##_##name##_large, BR1) { STEPS(80000000); EXPECT("accepted"); EXPECT("rejected"); size_t w = sym_pick(0, 2), n = w == 0 ? 60 : w == 1 ? 200 : 500; Keys k = random_set(n, 12, 3, 1 + (uint32_t)sym_pick(0, TIER(1, 9))); size_t q = 4; call; } \
  ENTRY(P##_##name##_wide, BR2) { STEPS(80000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = random_set(sym_pick(0, 1) ? 400 : 100, 253, 2, 1 + (uint32_t)sym_pick(0, TIER(1, 9))); size_t q = 3; call; } \
  ENTRY(P##_##name##_long, BL) { STEPS(80000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = random_set(sym_pick(0, 1) ? 150 : 40, 2, 12, 1 + (uint32_t)sym_pick(0, TIER(1, 9))); size_t q = 3; call; }
SET(A01, default, (accepts<uint32_t, false>(k, q)))
SET(A01, legacy, (accepts<uint32_t, true>(k, q)))
SET(A02, dict, (numbers<uint32_t>(k, q)))
ENTRY(A01_byte_codes, "8-bit codes: " BB) { STEPS(2000000); EXPECT("accepted"); EXPECT("rejected"); Keys k = binary(); accepts<uint8_t, false>(k, 4); }
