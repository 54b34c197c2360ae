// P01..P03: string matching. O01: factor oracle.
#include "sym.h"
#include <sim_ds/BitVector.hpp>
#include <sim_ds/string_util/FactorOracle.hpp>
#include <sim_ds/string_util/PatternMatching.hpp>
using namespace sim_ds::pattern_matching;

struct Str { // a string in memory of exactly its size
  char *p; size_t n; explicit Str(size_t n) : p(new char[n]), n(n) {} ~Str() { delete[] p; } Str(const Str &) = delete;
  std::string_view sv() const { return std::string_view(p, n); }
};
enum { BYTES = 0, TEXT = 1, TWO = 2, FOUR = 4, HIGH = 5 }; // any byte; any byte but NUL; 2 or 4 letters; 2 letters, one of them 0xff
static char letter(int kind) {
  switch (kind) { case BYTES: return (char)sym_u8(); case TEXT: return (char)sym_range(1, 255); case TWO: return (char)('a' + sym_bits(1)); case FOUR: return (char)('a' + sym_bits(2)); default: { uint8_t b = sym_bits(1); return (char)(b ? 0xff : 'a'); } }
}
static void fillS(Str &s, int kind) { for (size_t i = 0; i < s.n; i++) s.p[i] = letter(kind); }
typedef std::vector<size_t> (*Matcher)(std::string_view, std::string_view);
static void occurrences(Matcher f, Str &key, Str &text) {
  STEPS(600000); size_t m = key.n, n = text.n;
  std::vector<size_t> r = f(text.sv(), key.sv());
  size_t at = 0; bool inc = true; for (size_t k = 0; k + 1 < r.size(); k++) inc = inc && r[k] < r[k + 1]; ASSERT(inc, "positions in increasing order");
  bool exact = true; size_t found = 0; for (size_t i = 0; i + m <= n; i++) { bool occ = true; for (size_t j = 0; j < m; j++) occ = occ & (key.p[j] == text.p[i + j]); bool in = at < r.size() && r[at] == i; at += in; found += in; exact = exact & (in == occ); }
  ASSERT(exact && at == r.size(), "exactly the occurrences of the key are reported"); HIT(found > 0, "match"); HIT(found > 1, "matches");
}
static void occurrences(Matcher f, size_t m, size_t n, int kind) { Str key(m), text(n); fillS(key, kind); fillS(text, kind); occurrences(f, key, text); }
static const unsigned char PAL[4] = {'b', 'a', 0xff, 1};
static void picked(Matcher f, size_t m, size_t letters, size_t n, int kind) { // the key is any word over a small alphabet, the text is symbolic
  Str key(m), text(n); for (size_t i = 0; i < m; i++) key.p[i] = (char)PAL[sym_pick(0, letters - 1)]; fillS(text, kind); occurrences(f, key, text);
}
#define PB "keys of 1..3 (thorough 4), texts of 0..6 (thorough 7) arbitrary bytes"
#define P2 "keys of 2..5 (thorough 6), texts of 5..9 (thorough 11) letters of a 2-letter alphabet"
#define P4 "keys of 1..4, texts of 3..7 (thorough 8) letters of a 4-letter alphabet"
#define PH "keys of 1..3, texts of 0..6 over {a, 0xff}"
#define PL "keys of 6..8 (thorough 9) letters of a 2-letter alphabet, texts 1..3 (thorough 5) letters longer"
#define SET(P, name, fn) \
  ENTRY(P##_##name##_bytes, PB) { EXPECT("match"); EXPECT("matches"); size_t m = sym_pick(1, TIER(3, 4)), n = sym_pick(0, TIER(6, 7)); occurrences(fn, m, n, BYTES); } \
  ENTRY(P##_##name##_two, P2) { EXPECT("matches"); size_t m = sym_pick(2, TIER(5, 6)), n = sym_pick(5, TIER(9, 11)); occurrences(fn, m, n, TWO); } \
  ENTRY(P##_##name##_four, P4) { EXPECT("matches"); size_t m = sym_pick(1, 4), n = sym_pick(3, TIER(7, 8)); occurrences(fn, m, n, FOUR); } \
  ENTRY(P##_##name##_high, PH) { EXPECT("matches"); size_t m = sym_pick(1, 3), n = sym_pick(0, 6); occurrences(fn, m, n, HIGH); } \
  ENTRY(P##_##name##_long, PL) { EXPECT("match"); size_t m = sym_pick(6, TIER(8, 9)), n = m + sym_pick(1, TIER(3, 5)); occurrences(fn, m, n, TWO); }
SET(P01, naive, PatternMatchSimple)
SET(P01, kmp, PatternMatchKMP)
SET(P01, bm, PatternMatchBM)
SET(P03, quick, PatternMatchSundayQS)
SET(P03, maxshift, PatternMatchSundayMS)
#define OSET(name, fn) \
  ENTRY(P02_##name##_bytes, "keys of 1..2, texts of 0..3 arbitrary non-NUL bytes") { EXPECT("match"); EXPECT("matches"); size_t m = sym_pick(1, 2), n = sym_pick(0, 3); occurrences(fn, m, n, TEXT); } \
  ENTRY(P02_##name##_three, "every key of 1..3 (thorough 4) letters of {a, b, 0xff}, texts of 2..5 (6) arbitrary non-NUL bytes") { EXPECT("match"); EXPECT("matches"); size_t m = sym_pick(1, TIER(3, 4)), n = sym_pick(2, TIER(5, 6)); picked(fn, m, 3, n, TEXT); } \
  ENTRY(P02_##name##_two, "every key of 2..4 (thorough 5) letters of {a, b}, texts of 5..7 (8) letters of {a, b}") { EXPECT("matches"); size_t m = sym_pick(2, TIER(4, 5)), n = sym_pick(5, TIER(7, 8)); picked(fn, m, 2, n, TWO); } \
  ENTRY(P02_##name##_high, PH) { EXPECT("matches"); size_t m = sym_pick(1, 3), n = sym_pick(0, 6); occurrences(fn, m, n, HIGH); } \
  ENTRY(P02_##name##_long, "every key of 6 (thorough 6 and 7) letters of {a, b}, texts of 9 (thorough m+2, m+3) letters of {a, b}") { EXPECT("match"); size_t m = sym_pick(6, TIER(6, 7)), n = m + TIER(3, sym_pick(2, 3)); picked(fn, m, 2, n, TWO); }
OSET(bom, PatternMatchBOM)
OSET(turbobom, PatternMatchTurboBOM)
// long keys and texts: fixed by (kind, sizes), the key is a piece of the text, as it is or with its first or last letter
// changed; one byte of the text is symbolic
static unsigned char fixedLetter(size_t i, size_t kind) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x >>= 40; switch (kind) { case 0: return PAL[x & 1]; case 1: return i % 7 == 3 && i % 5 == 2 ? 'b' : "aab"[i % 3]; case 2: return 1 + x % 255; default: return 'a'; } }
static void longCase(Matcher f, size_t sizes, bool nul) { STEPS(TIER(40000000, 1000000000)); MERGE(0);
  static const size_t M[] = {9, 33, 100, 256, 301, 600}; size_t m = M[sym_pick(0, sizes - 1)], n = 2 * m + m / 2 + 30, kind = sym_pick(0, 3), change = sym_pick(0, 2), where = sym_pick(0, 2), from = n / 3;
  std::string t(n, 0), k(m, 0); for (size_t i = 0; i < n; i++) t[i] = (char)fixedLetter(i, kind); for (size_t j = 0; j < m; j++) k[j] = t[from + j]; if (change) { char &c = k[change == 1 ? 0 : m - 1]; c = c == 'a' ? 'c' : 'a'; }
  size_t at = where == 0 ? from : where == 1 ? from + m / 2 : from + m - 1; uint8_t c = nul ? sym_u8() : (uint8_t)sym_range(1, 255);
  Str key(m), text(n); for (size_t j = 0; j < m; j++) key.p[j] = k[j]; for (size_t i = 0; i < n; i++) text.p[i] = i == at ? (char)c : t[i];
  std::vector<size_t> r = f(text.sv(), key.sv()); size_t p = 0; bool exact = true;
  for (size_t i = 0; i + m <= n; i++) { bool occ = true; for (size_t j = 0; j < m && occ; j++) occ = i + j == at || k[j] == t[i + j]; if (occ && at >= i && at < i + m) occ = (uint8_t)k[at - i] == c; bool in = p < r.size() && r[p] == i; p += in; exact = exact & (in == occ); HIT(in, "match"); }
  ASSERT(exact && p == r.size(), "exactly the occurrences of the key are reported, in increasing order");
}
#define LC "fixed texts and keys of 9, 33, 100 and 256 (thorough 301 and 600) letters: 2 pseudo-random letters, nearly periodic, pseudo-random bytes, all equal; the key a piece of the text as it is or with one end changed; any byte at one place of the text"
#define LARGE(P, name, fn, nul) ENTRY(P##_##name##_large, LC) { EXPECT("match"); longCase(fn, TIER(4, 6), nul); }
#define LCM "as the other large entries, with keys of 9, 33 and 100 (thorough 256) letters, since preprocessing takes cubic time"
LARGE(P01, naive, PatternMatchSimple, true)
LARGE(P01, kmp, PatternMatchKMP, true)
LARGE(P01, bm, PatternMatchBM, true)
LARGE(P03, quick, PatternMatchSundayQS, true)
ENTRY(P03_maxshift_large, LCM) { EXPECT("match"); longCase(PatternMatchSundayMS, TIER(3, 4), true); }
LARGE(P02, bom, PatternMatchBOM, false)
LARGE(P02, turbobom, PatternMatchTurboBOM, false)

// ---- P04: a matcher is built once for a key and used for any number of texts
template <class M> static void reused(size_t m, size_t n1, size_t n2, int kind, bool pick) {
  STEPS(900000); Str key(m); if (pick) for (size_t i = 0; i < m; i++) key.p[i] = (char)PAL[sym_pick(0, 1)]; else fillS(key, kind); const M a(key.sv()); const size_t len[2] = {n1, n2};
  for (int r = 0; r < 3; r++) { Str text(len[r & 1]); if (r == 1) for (size_t i = 0; i < text.n; i++) text.p[i] = (char)PAL[i & 1]; else fillS(text, kind); std::vector<size_t> f = a.find_all(text.sv()); size_t at = 0; bool exact = true; for (size_t i = 0; i + m <= text.n; i++) { bool occ = true; for (size_t j = 0; j < m; j++) occ = occ & (key.p[j] == text.p[i + j]); bool in = at < f.size() && f[at] == i; at += in; exact = exact & (in == occ); HIT(in, "match"); } ASSERT(exact && at == f.size(), "exactly the occurrences in this text are reported, in increasing order"); }
}
#define MO "one matcher, three texts in turn: keys of 1..3 letters of {a, b}, texts of 3 and 5 letters of {a, b}"
#define OBJ(M, pick) ENTRY(P04_##M, MO) { EXPECT("match"); size_t m = sym_pick(1, 3); reused<M>(m, 3, 5, TWO, pick); }
OBJ(Simple, false) OBJ(Kmp, false) OBJ(Bm, false) OBJ(SundayQS, false) OBJ(SundayMS, false) OBJ(Bom, true) OBJ(TurboBom, true)
