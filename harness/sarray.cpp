// X01: suffix array and LCP array.
#include "vstream.h"
#include <sim_ds/string_util/SuffixArray.hpp>
using sim_ds::SuffixArray; using sim_ds::FitVector;

static void judge(const std::string &t) {
  size_t n = t.size(), room = n > 500 ? 9 * n + 4096 : 4096; STEPS(n > 500 ? 2000000000 : 4000000); SuffixArray sa(t); VStream v(room), w(room); sa.WriteSA(v.os()); FitVector s(v.is()); sa.WriteLCP(w.os()); FitVector l(w.is());
  ASSERT(s.size() == n && l.size() == n, "one entry per position");
  std::vector<size_t> p(n), c(n); std::vector<char> seen(n); bool perm = true;
  for (size_t i = 0; i < n; i++) { p[i] = s[i]; c[i] = l[i]; perm = perm & (p[i] < n); if (!perm) break; perm = perm & !seen[p[i]]; seen[p[i]] = 1; }
  ASSERT(perm, "the suffix array is a permutation of the positions"); if (!perm) return;
  bool order = true, lcp = true;
  for (size_t i = 0; i + 1 < n; i++) {
    size_t a = p[i], b = p[i + 1], k = 0; while (a + k < n && b + k < n && t[a + k] == t[b + k]) k++;
    order = order & (a + k == n || (b + k < n && (uint8_t)t[a + k] < (uint8_t)t[b + k])); lcp = lcp & (c[i] == k); HIT(k > 1, "shared");
  }
  ASSERT(order, "suffixes in lexicographic order of unsigned bytes"); ASSERT(lcp, "LCP entries are the longest common prefixes");
  bool same = true, chars = true; for (size_t i = 0; i < n; i += n > 500 ? n / 8 : n > 8 ? 7 : 1) { std::string_view x = sa.suffix(i); same = same & (x.size() == n - i); for (size_t k = 0; k < x.size(); k += n > 500 ? 97 : 1) same = same & (x[k] == t[i + k]); chars = chars & (sa.char_at(i) == (uint8_t)t[i]); }
  ASSERT(same, "suffix(i) is the text from position i"); ASSERT(chars, "char_at(i) is the byte at i");
}
ENTRY(X01_bytes, "every text of 0..2 non-NUL bytes") { size_t n = sym_pick(0, 2); std::string t(n, 0); for (auto &c : t) c = (char)sym_range(1, 255); judge(t); }
ENTRY(X01_two, "every text of 3..5 (thorough 6) letters of a 2-letter alphabet") { EXPECT("shared"); size_t n = sym_pick(3, TIER(5, 6)); std::string t(n, 0); for (auto &c : t) c = (char)('a' + sym_bits(1)); judge(t); }
ENTRY(X01_four, "every text of 1..4 (thorough 5) letters of {1, 0x41, 0x80, 0xc1}") { EXPECT("shared"); size_t n = sym_pick(1, TIER(4, 5)); std::string t(n, 0); for (auto &c : t) { uint8_t b = sym_bits(2); c = (char)((b << 6) | (b & 1) | (b == 0)); } judge(t); }
static const unsigned char PAL[4] = {'b', 0xff, 'a', 0x80};
static void hole(size_t n, size_t letters, size_t period, uint32_t seed) { // a fixed text with one letter that is split over all cases
  std::string t(n, 0); uint32_t x = seed; for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; t[i] = period && i >= period ? t[i - period] : (char)PAL[((x >> 16) & 0x7fff) % letters]; }
  size_t at = sym_pick(0, n - 1), c = sym_pick(0, 4); t[at] = (char)(c < 4 ? PAL[c] : 1); judge(t);
}
ENTRY(X01_hole, "pseudo-random texts of 40 letters over 2..4 letters, 1 (thorough 6) seeds, one letter replaced (case split over position and 5 letters)") { EXPECT("shared"); size_t l = sym_pick(2, 4); hole(40, l, 0, 1 + (uint32_t)sym_pick(0, TIER(0, 5))); }
ENTRY(X01_period, "texts of period 1..7 of 32 letters over 2 letters, 1 (thorough 6) seeds, one letter replaced (case split over position and 5 letters)") { EXPECT("shared"); size_t p = sym_pick(1, 7); hole(32, 2, p, 1 + (uint32_t)sym_pick(0, TIER(0, 5))); }
ENTRY(X01_large, "pseudo-random texts of 300 letters over 2 and 4 letters, one letter replaced") { EXPECT("shared"); size_t l = 2 * sym_pick(1, 2), n = 300; std::string t(n, 0); uint32_t x = 1 + sym_pick(0, TIER(0, 5)); for (auto &c : t) { x = x * 1103515245u + 12345u; c = (char)PAL[((x >> 16) & 0x7fff) % l]; } t[75 * sym_pick(0, 3)] = (char)PAL[sym_pick(0, 3)]; judge(t); }
ENTRY(X01_many, "texts of 1000 and 66000 (thorough 300000) letters: pseudo-random over 2 and 4 letters; of 1000 and 4000: Fibonacci words; of 1000 and 3000: period 7; one letter replaced") { EXPECT("shared"); MERGE(0); size_t kind = sym_pick(0, 3), n = sym_pick(0, 1) ? kind == 3 ? 3000 : TIER(66000, 300000) : 1000; std::string t(n, 0); uint32_t x = 7; if (kind == 2) { if (n > 3000) n = 4000; std::string a = "b", b = "a"; while (b.size() < n) { std::string c = b + a; a = b; b = c; } t = b.substr(0, n); } else for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; t[i] = kind == 3 && i >= 7 ? t[i - 7] : (char)PAL[((x >> 16) & 0x7fff) % (kind ? 2 : 4)]; } t[n > 3000 ? n - 1 : sym_pick(0, 1) * (n - 1)] = (char)PAL[3]; judge(t); }
ENTRY(X01_words, "every text of 1..6 (thorough 8) letters of {a, b, 0xff}, letters chosen by case split") { EXPECT("shared"); size_t n = sym_pick(1, TIER(6, 8)); std::string t(n, 0); for (auto &c : t) c = (char)PAL[sym_pick(0, 2)]; judge(t); }
