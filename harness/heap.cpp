// H01: Heap. H02: HeapSort.
#include "sym.h"
#include <sim_ds/Heap.hpp>
#include <sim_ds/sort.hpp>
using sim_ds::Heap; using sim_ds::MinHeap; using sim_ds::MaxHeap; using sim_ds::HeapSort; using sim_ds::id_type;

static unsigned BITS = 64; // width of the element values
static uint64_t value() { return sym_bits(BITS); }
static uint64_t occurrences(const std::vector<uint64_t> &v, uint64_t x) { uint64_t n = 0; for (auto y : v) n += y == x; return n; }
// The multiset present is checked by counting a symbolic probe value; `in` are the values pushed, `out` those popped.
template <bool Asc> static void drain(Heap<Asc> &h, std::vector<uint64_t> in, size_t n) {
  uint64_t probe = sym_u64(), left = occurrences(in, probe), got = 0; bool first = true; uint64_t last = 0;
  for (size_t k = 0; k < n; k++) {
    ASSERT(h.size() == n - k, "size is the number of elements present");
    uint64_t f = h.front(); ASSERT(first || (Asc ? last <= f : last >= f), "elements come out in priority order"); got += f == probe; last = f; first = false; h.pop();
  }
  ASSERT(h.size() == 0, "empty after popping everything"); ASSERT(got == left, "exactly the elements put in come out");
}
template <bool Asc> static void built(size_t n) {
  std::vector<uint64_t> v(n); for (auto &x : v) x = value();
  if (sym_pick(0, 1)) { Heap<Asc> h(v); drain<Asc>(h, v, n); } else { Heap<Asc> h(v.begin(), v.end()); drain<Asc>(h, v, n); }
}
#define HB "0..5 (thorough 7) arbitrary 64-bit elements, both constructors"
ENTRY(H01_build_min, HB) { MERGE(0); built<true>(sym_pick(0, TIER(5, 7))); }
ENTRY(H01_build_max, HB) { MERGE(0); built<false>(sym_pick(0, TIER(5, 7))); }
// every history of pushes and pops; front and the multiset are compared with a reference at every step
template <bool Asc> static void history(int steps, size_t start) {
  std::vector<uint64_t> ref; for (size_t i = 0; i < start; i++) ref.push_back(value());
  Heap<Asc> h(ref);
  for (int k = 0; k < steps; k++) {
    if (ref.empty() || sym_pick(0, 1)) { uint64_t x = value(); h.push(x); ref.push_back(x); }
    else { uint64_t best = ref[0]; size_t at = 0; for (size_t i = 1; i < ref.size(); i++) if (Asc ? ref[i] < best : ref[i] > best) { best = ref[i]; at = i; }
      ASSERT(h.front() == best, "front is the extreme element present"); h.pop(); ref.erase(ref.begin() + at); }
    ASSERT(h.size() == ref.size(), "size is the number of elements present");
  }
  drain<Asc>(h, ref, ref.size());
}
#define H4 "every history of 4 pushes and pops from an empty heap, every 64-bit value, then drained"
ENTRY(H01_history_min, H4) { MERGE(0); history<true>(4, 0); }
ENTRY(H01_history_max, H4) { MERGE(0); history<false>(4, 0); }
// a heap of n elements (any heap-ordered contents, so that building it does not branch), then a push or a pop, then more pops
template <bool Asc> static void extreme(Heap<Asc> &h, const std::vector<uint64_t> &in, uint64_t probe, uint64_t out) {
  uint64_t f = h.front(), n = out; bool ok = true; for (size_t id = 1; id <= h.size(); id++) { uint64_t x = h.value(id); ok = ok && (Asc ? f <= x : f >= x); n += x == probe; }
  ASSERT(ok, "front is the extreme element present"); ASSERT(n == occurrences(in, probe), "exactly the elements put in are present or came out");
}
template <bool Asc> static void grown(size_t n, size_t pushes, size_t pops) {
  BITS = 4; std::vector<uint64_t> ref(n); for (auto &x : ref) x = value(); uint64_t probe = value(), out = 0;
  for (size_t i = 1; i < n; i++) { uint64_t p = ref[(i - 1) / 2], c = ref[i]; ASSUME(Asc ? p <= c : p >= c); }
  Heap<Asc> h(ref);
  for (size_t k = 0; k < pushes; k++) { uint64_t x = value(); h.push(x); ref.push_back(x); ASSERT(h.size() == n + k + 1, "size"); extreme<Asc>(h, ref, probe, out); }
  for (size_t k = 0; k < pops; k++) { out += h.front() == probe; h.pop(); ASSERT(h.size() == ref.size() - k - 1, "size"); extreme<Asc>(h, ref, probe, out); }
}
#define HG(k, p) "every heap of " k " elements below 16 in heap order, " p ", each step checked"
ENTRY(H01_grown_min8, HG("8", "a push and 2 pops")) { MERGE(1); grown<true>(8, 1, TIER(2, 3)); }
ENTRY(H01_grown_min9, HG("9", "a push and 3 pops")) { MERGE(1); grown<true>(9, 1, 3); }
ENTRY(H01_grown_max8, HG("8", "a push and 3 pops")) { MERGE(1); grown<false>(8, 1, 3); }
ENTRY(H01_grown_max7, HG("7", "2 pushes and 2 pops")) { MERGE(1); grown<false>(7, 2, 2); }
ENTRY(H01_grown_min6, HG("6", "3 pushes and 2 pops")) { MERGE(1); grown<true>(6, 3, 2); }
ENTRY(H01_grown_min16, HG("16", "a pop")) { MERGE(1); grown<true>(16, 0, 1); }
ENTRY(H01_grown_max15, HG("15", "a push")) { MERGE(1); grown<false>(15, 1, 0); }
// building from any order
template <bool Asc> static void builtM(size_t n, size_t pops) { BITS = 4; std::vector<uint64_t> v(n); for (auto &x : v) x = value(); uint64_t probe = value(), out = 0; Heap<Asc> h(v); ASSERT(h.size() == n, "size"); extreme<Asc>(h, v, probe, out);
  for (size_t k = 0; k < pops; k++) { out += h.front() == probe; h.pop(); extreme<Asc>(h, v, probe, out); } }
ENTRY(H01_built_min8, "every 8 elements below 16, then 2 pops") { MERGE(1); builtM<true>(8, 2); }
ENTRY(H01_built_max7, "every 7 elements below 16, then 3 pops") { MERGE(1); builtM<false>(7, 3); }

// ---- H02. The range lies inside a larger vector whose other elements must not change.
template <class T, class Less> static void sorted(const std::vector<T> &in, const std::vector<T> &out, size_t lo, size_t n, Less less, T probe) {
  bool ord = true, same = true; uint64_t a = 0, b = 0;
  for (size_t i = 0; i + 1 < n; i++) ord = ord && !less(out[lo + i + 1], out[lo + i]);
  for (size_t i = 0; i < n; i++) { a += in[lo + i] == probe; b += out[lo + i] == probe; }
  for (size_t i = 0; i < in.size(); i++) if (i < lo || i >= lo + n) same = same && in[i] == out[i];
  ASSERT(ord, "the range is ordered"); ASSERT(a == b, "the range is a permutation of what it was"); ASSERT(same, "nothing outside the range changes");
}
template <class T> static void sortCase(size_t n, int cmp, unsigned bits) {
  std::vector<T> v(n + 2); for (auto &x : v) x = (T)sym_bits(bits); T probe = (T)sym_bits(bits); std::vector<T> in(v);
  auto key = [](T l, T r) { return (l & 7) < (r & 7); }; auto greater = [](T l, T r) { return l > r; }; auto less = [](T l, T r) { return l < r; };
  switch (cmp) {
  case 0: HeapSort(v.begin() + 1, v.begin() + 1 + n); sorted(in, v, 1, n, less, probe); break;
  case 1: HeapSort(v.begin() + 1, v.begin() + 1 + n, greater); sorted(in, v, 1, n, greater, probe); break;
  case 2: HeapSort(v.begin() + 1, v.begin() + 1 + n, key); sorted(in, v, 1, n, key, probe); break;
  case 3: HeapSort(v.data() + 1, v.data() + 1 + n); sorted(in, v, 1, n, less, probe); break;
  }
}
ENTRY(H02_u64, "every range of 0..4 64-bit values, default and descending order, iterators and pointers") { MERGE(1); size_t n = sym_pick(0, 4); int c = sym_pick(0, 2); sortCase<uint64_t>(n, c == 2 ? 3 : c, 64); }
ENTRY(H02_int, "every range of 0..5 signed 32-bit values, default and descending order") { MERGE(1); size_t n = sym_pick(0, 5); sortCase<int>(n, sym_pick(0, 1), 32); }
ENTRY(H02_key, "every range of 0..5 bytes ordered by their low 3 bits") { MERGE(1); sortCase<uint8_t>(sym_pick(0, 5), 2, 8); }
ENTRY(H02_six, "every 6 values below 64") { MERGE(1); sortCase<uint32_t>(6, 0, 6); }
ENTRY(H02_seven, "every 7 values below 16") { MERGE(1); sortCase<uint32_t>(7, 0, 4); }
ENTRY(H02_eight, "every 8 values below 8") { MERGE(1); sortCase<uint8_t>(8, 0, 3); }
ENTRY(H02_seven_desc, "every 7 values below 16, descending") { MERGE(1); sortCase<uint16_t>(7, 1, 4); }
ENTRY(H02_empty, "the empty range, of an empty vector and of null pointers") {
  STEPS(20000); std::vector<uint64_t> v; HeapSort(v.begin(), v.end()); ASSERT(v.empty(), "still empty"); uint64_t *p = nullptr; HeapSort(p, p); HeapSort(p, p, [](auto l, auto r) { return l > r; });
}
ENTRY(H02_heap_order, "9 (thorough 9..12) values below 16 in heap order (sorting from there)") {
  MERGE(1); size_t n = sym_pick(9, TIER(9, 12)); std::vector<uint8_t> v(n); for (auto &x : v) x = sym_bits(4); uint8_t probe = sym_bits(4); std::vector<uint8_t> in(v);
  for (size_t i = 1; i < n; i++) ASSUME(v[(i - 1) / 2] >= v[i]);
  HeapSort(v.begin(), v.end()); sorted(in, v, 0, n, [](uint8_t l, uint8_t r) { return l < r; }, probe);
}
// large heaps and ranges: fixed contents (sorted, reversed, equal, pseudo-random), one symbolic element
static const size_t LN[] = {31, 64, 100, 255, 256, 257, 600, 1000, 4097};
static uint64_t content(size_t i, size_t n, size_t kind) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; return kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? 7 : kind == 3 ? x % 10 : x >> 52; }
static const size_t KINDS = 5;
template <bool Asc> static void drainLarge() { STEPS(200000000); MERGE(0);
  size_t n = LN[sym_pick(0, TIER(7, 8))], kind = sym_pick(0, KINDS - 1); bool push = sym_pick(0, 1); std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = content(i, n, kind);
  Heap<Asc> h(push ? std::vector<uint64_t>() : v); if (push) for (auto x : v) h.push(x); std::sort(v.begin(), v.end()); if (!Asc) std::reverse(v.begin(), v.end());
  bool ok = true, sz = true; for (size_t k = 0; k < n; k++) { sz = sz & (h.size() == n - k); ok = ok & (h.front() == v[k]); h.pop(); } ASSERT(ok, "the elements put in come out in priority order"); ASSERT(sz && h.size() == 0, "size");
}
#define HL "31..1000 (thorough 4097) fixed elements in 5 orders, built at once or pushed, then drained"
ENTRY(H01_large_min, HL) { drainLarge<true>(); }
ENTRY(H01_large_max, HL) { drainLarge<false>(); }
template <bool Asc> static void pushLarge() { STEPS(50000000); MERGE(0);
  size_t n = LN[sym_pick(0, TIER(2, 6))], kind = sym_pick(0, KINDS - 1); std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = content(i, n, kind); Heap<Asc> h(v); std::sort(v.begin(), v.end()); if (!Asc) std::reverse(v.begin(), v.end());
  uint64_t x = sym_bits(12); h.push(x); ASSERT(h.size() == n + 1, "size"); // the first four out
  size_t k = 0; bool in = false; for (int i = 0; i < 4; i++) { uint64_t f = h.front(); bool mine = !in & (Asc ? x <= v[k] : x >= v[k]); uint64_t want = mine ? x : v[k]; ASSERT(f == want, "front is the extreme element present"); if (mine) in = true; else k++; h.pop(); ASSERT(h.size() == n - i, "size"); }
}
#define HP "heaps of 31..100 (thorough 600) fixed elements in 5 orders, a push of any 12-bit value, then 4 pops"
ENTRY(H01_large_push_min, HP) { pushLarge<true>(); }
ENTRY(H01_large_push_max, HP) { pushLarge<false>(); }
template <bool Asc> static void many() { STEPS(2000000000); MERGE(0); size_t n = 66000, kind = sym_pick(0, 1) ? 4 : 3; std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = content(i, n, kind); uint64_t x = sym_bits(12); Heap<Asc> h(v); h.push(x); v.push_back(0); size_t k = 0; std::sort(v.begin(), v.end() - 1); if (!Asc) std::reverse(v.begin(), v.end() - 1);
  bool in = false; for (int i = 0; i < 3; i++) { uint64_t f = h.front(); bool mine = !in & (Asc ? x <= v[k] : x >= v[k]); ASSERT(f == (mine ? x : v[k]), "front is the extreme element present"); if (mine) in = true; else k++; h.pop(); ASSERT(h.size() == n - i, "size"); }
  bool ok = true; for (size_t i = 2; i <= h.size(); i++) { uint64_t p = h.value(i / 2), c = h.value(i); ok = ok & (Asc ? p <= c : p >= c); } ASSERT(ok, "no child precedes its parent"); }
#define HM "66000 fixed elements in 2 orders, a push of any 12-bit value, then 3 pops"
ENTRY(H01_many_min, HM) { many<true>(); }
ENTRY(H01_many_max, HM) { many<false>(); }
ENTRY(H02_many, "66000 fixed values in 2 orders, ascending and descending") { STEPS(4000000000); MERGE(0); size_t n = 66000, kind = sym_pick(0, 1) ? 4 : 1; std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = content(i, n, kind); std::vector<uint64_t> w(v); if (sym_pick(0, 1)) { HeapSort(v.begin(), v.end(), std::greater<uint64_t>()); std::sort(w.begin(), w.end(), std::greater<uint64_t>()); } else { HeapSort(v.begin(), v.end()); std::sort(w.begin(), w.end()); } bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (v[i] == w[i]); ASSERT(ok, "the range is sorted, its content is kept"); }
ENTRY(H02_large, "31..1000 (thorough 4097) fixed values in 5 orders inside a larger vector, ascending and descending") { STEPS(200000000); MERGE(0);
  size_t n = LN[sym_pick(0, TIER(7, 8))], kind = sym_pick(0, KINDS - 1); std::vector<uint64_t> v(n + 2); for (size_t i = 0; i < n + 2; i++) v[i] = content(i, n, kind); std::vector<uint64_t> w(v); bool down = sym_pick(0, 1);
  if (down) HeapSort(v.begin() + 1, v.end() - 1, std::greater<uint64_t>()); else HeapSort(v.begin() + 1, v.end() - 1); if (down) std::sort(w.begin() + 1, w.end() - 1, std::greater<uint64_t>()); else std::sort(w.begin() + 1, w.end() - 1);
  bool ok = true; for (size_t i = 0; i < n + 2; i++) ok = ok & (v[i] == w[i]); ASSERT(ok, "the range is sorted, its content and everything outside is kept");
}

// ---- H03: the array behind the heap
template <bool Asc> static bool ordered(const Heap<Asc> &h) { bool ok = true; for (size_t i = 2; i <= h.size(); i++) { uint64_t p = h.value(h.parent(i)), c = h.value(i); ok = ok & (Asc ? p <= c : p >= c); } return ok; }
template <bool Asc> static void inner(size_t n) {
  std::vector<uint64_t> v(n); for (auto &x : v) x = value(); Heap<Asc> h(v); ASSERT(h.root() == 1 && h.size() == n, "the root is 1");
  for (size_t i = 1; i <= n; i++) { ASSERT(h.is_leaf(i) == (h.left(i) > n), "a leaf has no child"); if (h.left(i) <= n) ASSERT(h.parent(h.left(i)) == i, "parent of left"); if (h.right(i) <= n) ASSERT(h.parent(h.right(i)) == i && h.right(i) != h.left(i), "parent of right"); }
  ASSERT(ordered(h), "no child precedes its parent"); uint64_t probe = value(), c = 0; for (size_t i = 1; i <= n; i++) c += h.value(i) == probe; ASSERT(c == occurrences(v, probe), "the values are the elements put in"); if (n) ASSERT(h.value(1) == h.front(), "front is the value at the root");
  if (n == 0) { h.push(probe); ASSERT(h.size() == 1 && h.value(1) == probe, "push into the empty heap"); return; }
  size_t op = sym_pick(0, 2); if (op == 0) { uint64_t x = value(); h.push(x); v.push_back(x); } else if (op == 1) { uint64_t f = h.front(); h.pop(); size_t at = 0; for (size_t i = 0; i < v.size(); i++) if (v[i] == f) at = i; v.erase(v.begin() + at); }
  else { size_t i = sym_pick(1, n); uint64_t x = value(), old = h.value(i); ASSUME(Asc ? x >= old : x <= old); h.value_reference(i) = x; ASSERT(h.value(i) == x, "value_reference writes the value"); h.Heapify(i); size_t at = 0; for (size_t k = 0; k < v.size(); k++) if (v[k] == old) at = k; v[at] = x; }
  ASSERT(h.size() == v.size(), "size"); ASSERT(ordered(h), "no child precedes its parent afterwards"); c = 0; for (size_t i = 1; i <= h.size(); i++) c += h.value(i) == probe; ASSERT(c == occurrences(v, probe), "the values are the elements present");
}
#define HI "0..4 (thorough 5) elements, then a push, a pop, or any element made worse and sifted down, every 6-bit (thorough 8-bit) value"
ENTRY(H03_min, HI) { MERGE(0); BITS = TIER(6, 8); inner<true>(sym_pick(0, TIER(4, 5))); }
ENTRY(H03_max, HI) { MERGE(0); BITS = TIER(6, 8); inner<false>(sym_pick(0, TIER(4, 5))); }
template <bool Asc> static void innerLarge() { STEPS(60000000); MERGE(0); size_t n = LN[sym_pick(0, TIER(2, 6))], kind = sym_pick(0, KINDS - 1); std::vector<uint64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = content(i, n, kind); Heap<Asc> h(v); ASSERT(ordered(h), "no child precedes its parent"); size_t at = sym_pick(0, 2); at = at == 0 ? 1 : at == 1 ? 2 : n / 3; uint64_t x = sym_bits(12), old = h.value(at); ASSUME(Asc ? x >= old : x <= old); h.value_reference(at) = x; h.Heapify(at); ASSERT(ordered(h), "no child precedes its parent afterwards"); for (size_t i = 0; i < 3; i++) { h.pop(); ASSERT(ordered(h), "no child precedes its parent afterwards"); } h.push(content(n / 2, n, kind)); ASSERT(ordered(h), "no child precedes its parent afterwards"); }
ENTRY(H03_large_min, "31..100 (thorough 600) fixed elements in 5 orders, one of 3 positions made worse by any 12-bit value, then 3 pops and a push") { innerLarge<true>(); }
ENTRY(H03_large_max, "31..100 (thorough 600) fixed elements in 5 orders, one of 3 positions made worse by any 12-bit value, then 3 pops and a push") { innerLarge<false>(); }
