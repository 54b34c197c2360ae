// I01: InitializableArray (in place), InitializableArrayFolklore.
#include "sym.h"
#include <sim_ds/InitializableArray.hpp>
using sim_ds::InitializableArray; using sim_ds::InitializableArrayFolklore;

static void hide(void *p) { (void)p;
#ifdef SYM_NATIVE
  asm volatile("" : : "r"(p) : "memory"); // keeps the compiler from assuming anything about the bytes of the object
#endif
}
template <class T> static T val(uint64_t bits) { T v; std::memcpy(&v, &bits, sizeof v); return v; }
template <class T> static uint64_t raw(T v) { uint64_t b = 0; std::memcpy(&b, &v, sizeof v); return b; }
// memory of arbitrary prior content
template <class A> struct Mem {
  alignas(A) unsigned char buf[sizeof(A)];
  explicit Mem(int prior) { for (auto &b : buf) b = prior < 0 ? sym_u8() : prior; hide(buf); }
  A *at() { return (A *)buf; }
};
template <class T> static T any() { return val<T>(sym_bits(8 * sizeof(T))); }
// ops: s = set, f = fill, i = init, ? = set or fill; indices symbolic or picked
template <class T, size_t N> static void inplace(const char *ops, bool pickIndex, int prior) {
  using A = InitializableArray<T, N>; Mem<A> m(prior);
  T first = any<T>(); A *p = new (m.at()) A(first); hide(p); A &a = *p;
  std::vector<uint64_t> ref(N, raw(first)); ASSERT(a.size() == N, "size");
  for (const char *o = ops; *o; o++) {
    bool set = *o == 's' || (*o == '?' && sym_pick(0, 2) != 0);
    if (set) { size_t i = pickIndex ? sym_pick(0, N - 1) : sym_below(N); T v = any<T>(); if (*o == '?') a[i] = v; else a.set(i, v); uint64_t b = raw(v); for (size_t k = 0; k < N; k++) ref[k] = k == i ? b : ref[k]; }
    else { T v = any<T>(); if (*o == 'i') a.init(v); else a.fill(v); uint64_t b = raw(v); for (auto &r : ref) r = b; }
  }
  const A &c = a;
  for (size_t k = 0; k < N; k++) { ASSERT(raw<T>(a.get(k)) == ref[k], "get(i) is the value set since the last fill, or the fill value"); T x = c[k]; ASSERT(raw<T>(x) == ref[k], "the same through operator[]"); }
}
#define IB "arbitrary prior memory, values and indices"
ENTRY(I01_u8_n2, "2 bytes, set fill set set; " IB) { MERGE(1); inplace<uint8_t, 2>("sfss", false, -1); }
ENTRY(I01_u8_n3, "3 bytes (odd size), 4 sets; " IB) { MERGE(1); inplace<uint8_t, 3>("ssss", false, -1); }
ENTRY(I01_u8_n4, "4 bytes, 4 sets; " IB) { MERGE(1); inplace<uint8_t, 4>("ssss", false, -1); }
ENTRY(I01_u8_n6, "6 bytes, 4 sets; " IB) { MERGE(1); inplace<uint8_t, 6>("ssss", false, -1); }
ENTRY(I01_u8_n6_refill, "6 bytes, 2 sets, fill, 2 sets; " IB) { MERGE(1); inplace<uint8_t, 6>("ssfss", false, -1); }
ENTRY(I01_u8_n8, "8 bytes, 3 sets; " IB) { MERGE(1); inplace<uint8_t, 8>("sss", false, -1); }
ENTRY(I01_u8_n8_picked, "8 bytes, 3 (thorough 4) sets at picked indices; " IB) { MERGE(1); inplace<uint8_t, 8>(TIER("sss", "ssss"), true, -1); }
ENTRY(I01_u8_n6_mixed, "6 bytes, every history of 3 (thorough 4) operations (each a set or a fill) with picked indices; " IB) { MERGE(1); inplace<uint8_t, 6>(TIER("???", "????"), true, -1); }
ENTRY(I01_u8_n10, "10 bytes, every index of 2 sets; " IB) { MERGE(1); inplace<uint8_t, 10>("ss", false, -1); }
ENTRY(I01_u32_n6, "6 32-bit values, 3 sets; " IB) { MERGE(1); inplace<uint32_t, 6>("sss", false, -1); }
ENTRY(I01_int_n5, "5 ints, 3 sets, init, 2 sets; " IB) { MERGE(1); inplace<int, 5>("sis", false, -1); }
ENTRY(I01_i8_n6, "6 signed bytes, 3 sets; " IB) { MERGE(1); inplace<signed char, 6>("sss", false, -1); }
ENTRY(I01_float_n6, "6 floats, 3 sets; " IB) { MERGE(1); inplace<float, 6>("sss", true, -1); }
ENTRY(I01_double_n6, "6 doubles, 3 sets; " IB) { MERGE(1); inplace<double, 6>("sss", true, -1); }

template <class T> static void folklore(size_t n, const char *ops) {
  T first = any<T>(); InitializableArrayFolklore<T> a(n, first); std::vector<T> ref(n, first); ASSERT(a.size() == n, "size");
  for (const char *o = ops; *o; o++) {
    if (sym_pick(0, 2)) { size_t i = sym_pick(0, n - 1); T v = any<T>(); a.set(i, v); ref[i] = v; }
    else { T v = any<T>(); if (*o == 'i') a.init(v); else a.fill(v); for (auto &r : ref) r = v; }
    for (size_t k = 0; k < n; k++) ASSERT(a.get(k) == ref[k], "get(i) is the value set since the last fill, or the fill value");
  }
}
ENTRY(I01_folklore, "the back-pointer array: 3 elements, every history of 5 operations") { folklore<uint32_t>(3, "fifif"); }
ENTRY(I01_folklore_one, "the back-pointer array: 1 and 2 elements, every history of 4 operations") { size_t n = sym_pick(1, 2); folklore<uint64_t>(n, "ffff"); }
ENTRY(I01_folklore_range, "the back-pointer array built from 0..4 values") { size_t n = sym_pick(0, 4); std::vector<uint16_t> v(n); for (auto &x : v) x = sym_u16(); InitializableArrayFolklore<uint16_t> a(v.begin(), v.end()); ASSERT(a.size() == n, "size"); for (size_t i = 0; i < n; i++) ASSERT(a.get(i) == v[i], "get(i) is the source value"); a.fill(7); for (size_t i = 0; i < n; i++) ASSERT(a.get(i) == 7, "fill"); }
// large arrays: fixed histories, indices and prior memory; one value symbolic
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
template <class T, class A> static void largeHistory(A &a, size_t N, T first) { size_t order = sym_pick(0, 3), at = sym_pick(0, 1) ? N / 2 : N - 1; T sv = any<T>(); std::vector<T> ref(N, first); size_t steps = 2 * N; ASSERT(a.size() == N, "size");
  for (size_t k = 0; k < steps; k++) {
    if (k == N / 3 || k == N + N / 4) { T v = val<T>(mix(k)); a.fill(v); for (auto &r : ref) r = v; continue; }
    size_t i = order == 0 ? k % N : order == 1 ? N - 1 - k % N : order == 2 ? mix(k) % N : (k * 2 + (k >= N)) % N; if (order == 3 && k % 3 && k != steps - 2) continue;
    T v = k == steps - 2 ? sv : val<T>(mix(k + 3)); if (k == steps - 2) i = at; a.set(i, v); ref[i] = v; if (k % 37 == 0) { size_t q = mix(k + 9) % N; ASSERT(raw<T>(a.get(q)) == raw(ref[q]), "get(i) is the value set since the last fill, or the fill value"); }
  }
  bool ok = true; for (size_t k = 0; k < N; k++) ok = ok & (raw<T>(a.get(k)) == raw(ref[k])); ASSERT(ok, "get(i) is the value set since the last fill, or the fill value");
}
template <class T, size_t N> static void largeCase() { STEPS(80000000); using A = InitializableArray<T, N>; size_t prior = sym_pick(0, 2); std::unique_ptr<Mem<A>> m(new Mem<A>(prior == 1 ? 0xff : 0)); if (prior == 2) for (size_t i = 0; i < sizeof(A); i++) m->buf[i] = (unsigned char)(i % 8 == 0 ? i / 8 * 5 : i % 8 == 1 ? i >> 11 : 0); T first = val<T>(mix(7)); A *p = new (m->at()) A(first); hide(p); largeHistory<T>(*p, N, first); }
template <class T> static void largeFolk(size_t n) { STEPS(80000000); T first = val<T>(mix(7)); InitializableArrayFolklore<T> a(n, first); largeHistory<T>(a, n, first); }
#define IL "fixed histories of 2N sets in 4 orders and 2 fills over 3 kinds of prior memory, one value symbolic"
ENTRY(I01_large_u8, "255 and 256 bytes: " IL) { if (sym_pick(0, 1)) largeCase<uint8_t, 255>(); else largeCase<uint8_t, 256>(); }
ENTRY(I01_large_u32, "257 and 1000 32-bit values: " IL) { if (sym_pick(0, 1)) largeCase<uint32_t, 257>(); else largeCase<uint32_t, 1000>(); }
ENTRY(I01_large_i16, "40 and 600 (thorough 5000) 16-bit values: " IL) { if (sym_pick(0, 1)) largeCase<int16_t, 40>(); else largeCase<int16_t, TIER(600, 5000)>(); }
ENTRY(I01_large_double, "66 doubles: " IL) { largeCase<double, 66>(); }
ENTRY(I01_large_folklore, "the back-pointer array: 255, 257, 1000 elements: " IL) { size_t w = sym_pick(0, 2); if (w == 0) largeFolk<uint16_t>(255); else if (w == 1) largeFolk<uint64_t>(257); else largeFolk<uint8_t>(1000); }

// ---- I02: filling takes constant time: the number of bytes of the object that change does not depend on its size
template <class A> static void snapshot(const A &a, std::vector<unsigned char> &s) { s.assign((const unsigned char *)&a, (const unsigned char *)&a + sizeof(A)); }
template <class A> static size_t changed(const A &a, const std::vector<unsigned char> &s) { const unsigned char *p = (const unsigned char *)&a; size_t n = 0; for (size_t i = 0; i < s.size(); i++) n += p[i] != s[i]; return n; }
template <class T, size_t N> static void constantTime() { STEPS(80000000); MERGE(1); using A = InitializableArray<T, N>; std::unique_ptr<Mem<A>> m(new Mem<A>(0)); bool prior = sym_pick(0, 1); if (prior) for (size_t i = 0; i < sizeof(A); i++) m->buf[i] = (unsigned char)(1 + mix(i));
  std::vector<unsigned char> s; s.assign(m->buf, m->buf + sizeof(A)); T v = val<T>(mix(77)); A *p = new (m->at()) A(v); hide(p); A &a = *p; const size_t few = 32, sets = 16 * sizeof(T) + 16;
  ASSERT(changed(a, s) <= few, "construction writes a constant number of bytes"); ASSERT(sizeof(A) <= (N + 2) * sizeof(T) + 32, "the object is an array and a constant number of words");
  size_t used = sym_pick(0, 2), k = 0; for (; k < used * N; k++) { snapshot(a, s); a.set(mix(k) % N, val<T>(mix(k + 1))); if (k % 16 == 0) ASSERT(changed(a, s) <= sets, "a set writes a constant number of elements"); }
  snapshot(a, s); T w = any<T>(); if (sym_pick(0, 1)) a.fill(w); else a.init(w); ASSERT(changed(a, s) <= few, "a fill writes a constant number of bytes"); for (size_t i = 0; i < N; i += N / 5) ASSERT(raw<T>(a.get(i)) == raw(w), "every element reads as the fill value");
  size_t i = sym_pick(0, 1) ? N - 1 : N / 2; snapshot(a, s); a.set(i, v); ASSERT(changed(a, s) <= sets, "a set writes a constant number of elements");
}
#define IC " elements over 2 kinds of prior memory, after 0, N or 2N fixed sets, any fill value"
ENTRY(I02_bytes, "bytes: 100 and 256" IC) { if (sym_pick(0, 1)) constantTime<uint8_t, 100>(); else constantTime<uint8_t, 256>(); }
ENTRY(I02_words, "32-bit values: 100 and 1000" IC) { if (sym_pick(0, 1)) constantTime<uint32_t, 100>(); else constantTime<uint32_t, 1000>(); }
ENTRY(I02_doubles, "doubles: 300" IC) { constantTime<double, 300>(); }
struct Counted { uint64_t v; static size_t copies; Counted(uint64_t v = 0) : v(v) {} Counted(const Counted &o) : v(o.v) { copies++; } Counted &operator=(const Counted &o) { v = o.v; copies++; return *this; } bool operator==(const Counted &o) const { return v == o.v; } };
size_t Counted::copies = 0;
ENTRY(I02_folklore, "the back-pointer array: 50 and 1000" IC) { STEPS(80000000); size_t n = sym_pick(0, 1) ? 50 : 1000; InitializableArrayFolklore<Counted> a(n, Counted(sym_u64())); size_t used = sym_pick(0, 2); for (size_t k = 0; k < used * n; k++) a.set(mix(k) % n, Counted(mix(k))); Counted w(sym_u64()); size_t c = Counted::copies; if (sym_pick(0, 1)) a.fill(w); else a.init(w); ASSERT(Counted::copies - c <= 16, "a fill copies a constant number of elements"); for (size_t i = 0; i < n; i += 7) ASSERT(a.get(i).v == w.v, "every element reads as the fill value"); c = Counted::copies; a.set(n / 2, Counted(5)); ASSERT(Counted::copies - c <= 16, "a set copies a constant number of elements"); }
