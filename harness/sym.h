// Harness interface. The same file is compiled (a) to LLVM bitcode for the symbolic engine, where sym_* inputs are
// bit-vector variables, and (b) natively, where they are read from a replay file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <ios>
#ifdef __clang__ // std::endl stays a call
#pragma clang attribute push(__attribute__((noinline)), apply_to = function)
#endif
#include <ostream>
#ifdef __clang__
#pragma clang attribute pop
#endif
#include <climits>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <unordered_map>
#include <queue>
#include <stack>
#include <list>
#include <tuple>
#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <limits>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <chrono>
#include <iomanip>
#include <stdexcept>
#include <initializer_list>
#include <type_traits>
#include <cassert>
#include <boost/align/aligned_allocator.hpp>
#include <x86intrin.h>

extern "C" {
uint64_t __sym_input(uint32_t bits, uint64_t lo, uint64_t hi);
uint64_t __sym_pick(uint64_t lo, uint64_t hi);
uint64_t __sym_concretize(uint64_t v);
void __sym_assume(bool c);
void __sym_assert(bool c, const char *msg);
void __sym_reach(const char *label);
void __sym_obs(uint64_t v);
void __sym_merge(int mode);
void __sym_steps(uint64_t n);
uint64_t __sym_work(); uint64_t __sym_alloc();
void __sym_freeze(); void __sym_thaw();
int __sym_engine();
void __sym_fail(uint64_t k);
uint64_t __sym_live();
void __sym_print(const char *l, uint64_t v);
}
static inline uint64_t sym_u64() { return __sym_input(64, 0, ~0ull); }
static inline uint32_t sym_u32() { return (uint32_t)__sym_input(32, 0, 0xffffffffull); }
static inline uint16_t sym_u16() { return (uint16_t)__sym_input(16, 0, 0xffff); }
static inline uint8_t sym_u8() { return (uint8_t)__sym_input(8, 0, 0xff); }
static inline bool sym_bool() { return (bool)__sym_input(1, 0, 1); }
static constexpr uint32_t sym_bitlen(uint64_t v) { uint32_t n = 0; while (v) { n++; v >>= 1; } return n ? n : 1; }
static inline uint64_t sym_range(uint64_t lo, uint64_t hi) { return __sym_input(sym_bitlen(hi), lo, hi); }    // inclusive
static inline uint64_t sym_below(uint64_t n) { return __sym_input(sym_bitlen(n - 1), 0, n - 1); }
static inline uint64_t sym_bits(uint32_t w) { return __sym_input(w, 0, w >= 64 ? ~0ull : (1ull << w) - 1); }
static inline uint64_t sym_pick(uint64_t lo, uint64_t hi) { return __sym_pick(lo, hi); }
#define ASSUME(c) __sym_assume(c)
#define ASSERT(c, msg) __sym_assert((bool)(c), msg)
#define OBS(v) __sym_obs((uint64_t)(v))
#define REACH(l) __sym_reach(l)
// labels that a run of the entry must reach at least once, otherwise the result is vacuous
#define EXPECT(l) __sym_reach("?" l)
#define HIT(c, l) do { if (c) __sym_reach(l); } while (0)
// control-flow merging: 0 = one path per branch, 1 = merge at join points, 3 = merge pointers as well
#define MERGE(m) __sym_merge(m)
// more than n instructions on one path is reported as nontermination (confirmed by the native replay)
#define STEPS(n) __sym_steps(n)
#define ENTRY(name, bound) static void body_##name(); extern "C" __attribute__((used)) void h_##name() { __sym_reach("#" bound); __sym_reach("?end"); body_##name(); __sym_reach("end"); } static void body_##name()
#ifdef THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
// steps done so far on this path: basic blocks entered, and one per 16 bytes allocated, copied or filled. Natively counted in the "work"
// replay build only (0 elsewhere), so only asserts that work stays below a bound make sense.
#define WORK() __sym_work()
#define ALLOCATED() __sym_alloc() // bytes requested so far, likewise
// between FREEZE and THAW every object and global that exists at FREEZE is write-protected (locals and new allocations are not);
// natively so in the "frozen" replay build. No other sym_*, ASSERT, OBS or REACH may come between them.
#define FREEZE() __sym_freeze()
#define THAW() __sym_thaw()
// FAIL_AT(k): the k-th allocation from now on fails (bad_alloc), 0 turns it off again. LIVE(): blocks on the heap. Natively so in the
// "faults" replay build; in the others nothing fails and LIVE() is 0, so OBS and REACH may not depend on whether something failed.
#define FAIL_AT(k) __sym_fail(k)
#define LIVE() __sym_live()
#define KEEP __attribute__((noinline))

// ---- the library; its word helpers stay out of line so that the engine can prove them once and then use the fact
#ifdef __clang__
#pragma clang attribute push(__attribute__((noinline)), apply_to = function)
#endif
#include <sim_ds/bit_util.hpp>
#ifdef __clang__
#pragma clang attribute pop
#endif
#include <sim_ds/basic.hpp>
