#include <malloc.h>
// Replay driver: runs one entry natively on concrete inputs.
//   exit 0 entry finished, 1 assertion failed / exception left the entry, 77 replay file does not fit, 78 assumption false
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<uint64_t> in; static size_t at = 0;
static uint64_t next(uint64_t lo, uint64_t hi) { if (at >= in.size()) { printf("REPLAY: inputs exhausted\n"); fflush(stdout); _exit(77); } uint64_t v = in[at++]; if (v < lo || v > hi) { printf("REPLAY: input %zu = %llu outside [%llu,%llu]\n", at - 1, (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi); fflush(stdout); _exit(77); } return v; }
extern "C" {
uint64_t __sym_input(uint32_t, uint64_t lo, uint64_t hi) { return next(lo, hi); }
uint64_t __sym_pick(uint64_t lo, uint64_t hi) { return next(lo, hi); }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_assume(bool c) { if (!c) { printf("REPLAY: assumption false\n"); fflush(stdout); _exit(78); } }
void __sym_assert(bool c, const char *m) { if (!c) { printf("ASSERTION FAILED: %s\n", m); fflush(stdout); _exit(1); } }
void __sym_reach(const char *l) { if (l[0] != '?' && l[0] != '#') printf("reach %s\n", l); }
void __sym_obs(uint64_t v) { printf("obs %llu\n", (unsigned long long)v); }
void __sym_merge(int) {}
void __sym_steps(uint64_t) {}
int __sym_engine() { return 0; }
#ifdef COUNT_WORK
static uint64_t work = 0, allocated = 0;
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { work++; }
__attribute__((no_sanitize_coverage)) uint64_t __sym_work() { return work; }
__attribute__((no_sanitize_coverage)) uint64_t __sym_alloc() { return allocated; }
#else
uint64_t __sym_work() { return 0; }
uint64_t __sym_alloc() { return 0; }
#endif
void __sym_print(const char *l, uint64_t v) { printf("print %s = %llu\n", l, (unsigned long long)v); }
}
#ifdef COUNT_WORK
#define NC __attribute__((no_sanitize_coverage))
NC void *operator new(size_t n) { work += n / 16; allocated += n; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
extern "C" NC int posix_memalign(void **p, size_t a, size_t n) { work += n / 16; allocated += n; *p = memalign(a, n); return *p ? 0 : 12; }
extern "C" NC void *aligned_alloc(size_t a, size_t n) { work += n / 16; allocated += n; return memalign(a, n); }
extern "C" NC void *memcpy(void *d, const void *s, size_t n) { work += n / 16; void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
extern "C" NC void *memmove(void *d, const void *s, size_t n) { if ((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n); work += n / 16; void *r = d, *e = (char *)d + n - 1; const void *f = (const char *)s + n - 1; asm volatile("std\n rep movsb\n cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); return r; }
extern "C" NC void *memset(void *d, int c, size_t n) { work += n / 16; void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
NC void *operator new[](size_t n) { return operator new(n); }
NC void operator delete(void *p) noexcept { free(p); }
NC void operator delete(void *p, size_t) noexcept { free(p); }
NC void operator delete[](void *p) noexcept { free(p); }
NC void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#ifdef FREEZE // between freeze and thaw, everything allocated before and the globals of the program are write-protected
#include <sys/mman.h>
#include <csignal>
#include <cstring>
#include <new>
extern "C" char __data_start, _end; extern "C" void __libc_free(void *);
static const size_t SPAN = 1ull << 30;
struct Arenas { char *base[2]; size_t used[2]; int cur; }; // kept outside the protected globals
static Arenas &arenas() { static Arenas *const a = [] { auto *p = (Arenas *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (char *&b : p->base) { b = (char *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) abort(); } return p; }(); return *a; }
static void *take(size_t n, size_t a) { Arenas &h = arenas(); size_t &u = h.used[h.cur]; if (a < 16) a = 16;
  size_t p = (u + a - 1) / a * a; if (n >= SPAN || p + n >= SPAN) throw std::bad_alloc(); u = p + (n ? n : 1); return h.base[h.cur] + p; }
static void caught() { static const char m[] = "ASSERTION FAILED: a query writes to (or releases) memory that concurrent readers share\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; _exit(1); }
static void onsegv(int s, siginfo_t *, void *) { if (arenas().cur == 0) { signal(s, SIG_DFL); return; } caught(); }
static bool mine(void *p) { Arenas &h = arenas(); for (int k = 0; k < 2; k++) if ((char *)p >= h.base[k] && (char *)p < h.base[k] + SPAN) { if (k == 0 && h.cur == 1) caught(); return true; } return false; }
static void protect(int prot) { Arenas &h = arenas(); uintptr_t lo = (uintptr_t)&__data_start & ~4095ull, hi = ((uintptr_t)&_end + 4095) & ~4095ull;
  mprotect(h.base[0], (h.used[0] + 4095) / 4096 * 4096, prot); mprotect((void *)lo, hi - lo, prot); }
extern "C" void __sym_freeze() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  Arenas &h = arenas(); h.used[0] = (h.used[0] + 4095) / 4096 * 4096; fflush(stdout); h.cur = 1; protect(PROT_READ); }
extern "C" void __sym_thaw() { protect(PROT_READ | PROT_WRITE); arenas().cur = 0; }
void *operator new(size_t n) { return take(n, 16); }
void *operator new[](size_t n) { return take(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void *p) noexcept { mine(p); }
void operator delete(void *p, size_t) noexcept { mine(p); }
void operator delete[](void *p) noexcept { mine(p); }
void operator delete[](void *p, size_t) noexcept { mine(p); }
extern "C" int posix_memalign(void **p, size_t a, size_t n) { *p = take(n, a); return 0; }
extern "C" void *aligned_alloc(size_t a, size_t n) { return take(n, a); }
extern "C" void free(void *p) { if (p && !mine(p)) __libc_free(p); }
#else
extern "C" void __sym_freeze() {}
extern "C" void __sym_thaw() {}
#endif
#ifdef FAULTS // allocations are counted and the k-th can be made to fail
#include <new>
static uint64_t failAt = 0; static long live = 0;
static bool fails() { return failAt && --failAt == 0; }
extern "C" void __sym_fail(uint64_t k) { failAt = k; }
extern "C" uint64_t __sym_live() { return live; }
static void *take(size_t n) { if (fails()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
extern "C" void __real_free(void *);
static void give(void *p) { if (p) { live--; __real_free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
extern "C" { // what the program itself calls, through -Wl,--wrap; calls from the C library are not counted
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void __real_free(void *);
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (fails()) return 12; int r = __real_posix_memalign(p, a, n); if (!r) live++; return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (fails()) return nullptr; void *p = __real_aligned_alloc(a, n); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
}
#else
extern "C" void __sym_fail(uint64_t) {}
extern "C" uint64_t __sym_live() { return 0; }
#endif
int main(int argc, char **argv) {
  if (argc < 2) return 77; // entry, then inputs on stdin or as arguments
  auto *f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { printf("REPLAY: no entry %s\n", argv[1]); return 77; }
  for (int i = 2; i < argc; i++) in.push_back(strtoull(argv[i], nullptr, 0));
  try { f(); } catch (std::exception &e) { printf("ASSERTION FAILED: exception %s (%s)\n", typeid(e).name(), e.what()); fflush(stdout); _exit(1); } catch (...) { printf("ASSERTION FAILED: exception\n"); fflush(stdout); _exit(1); }
  printf("done\n"); fflush(stdout); return 0;
}
