// The race variant of the simulator: the code under test is compiled with the compiler's thread-sanitizer
// instrumentation, but the calls it makes end here instead of in that sanitizer's runtime.  Every load and store is
// a step of the scheduler, and is judged against a happens-before relation over the simulated threads: an access that
// is not ordered after another thread's earlier access to the same bytes, one of the two being a write, is a data
// race, whether or not the schedule of this run made it visible in a result.
#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
#include <unordered_map>
using namespace rt;
extern "C" char __data_start, _end, __executable_start;

namespace {
const int T = 4;
struct Vc { uint32_t c[T] = {0, 0, 0, 0}; void join(const Vc &o) { for (int i = 0; i < T; i++) c[i] = std::max(c[i], o.c[i]); } };
struct Slot { uint32_t clk, pc; uint8_t mask; };
struct Granule { Slot w[T], r[T]; };
const size_t PAGE = 4096, PER = PAGE / 8;
char *const ARENA = (char *)0x200000000000ull; const size_t ARENA_SIZE = 1ull << 36;
Granule **heap, **data; // shadow of one page each, made when first touched
struct Sync { Vc w, r; int owner = -1; };
std::unordered_map<const void *, Sync> *syncs;
Vc vc[T]; bool on; uint64_t n_acc;

Granule *granule(uintptr_t a, bool make) {
  Granule **e; size_t off;
  if (a - (uintptr_t)ARENA < ARENA_SIZE) { off = a - (uintptr_t)ARENA; e = &heap[off / PAGE]; }
  else if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { off = a - ((uintptr_t)&__data_start & ~7ull); e = &data[off / PAGE]; }
  else return nullptr;
  if (!*e) { if (!make) return nullptr; *e = (Granule *)mmap(nullptr, PER * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*e == MAP_FAILED) internal_error("no shadow"); }
  return *e + off % PAGE / 8;
}
__attribute__((noinline)) void report(uintptr_t a, int n, bool write, int me, uintptr_t pc, int other, bool owrite, uint32_t opc) {
  in_cut = 0; char b[400];
  snprintf(b, sizeof b, "data race on %s: thread %d %s %d bytes at [pc 0x%zx] while nothing orders this after thread %d's %s at [pc 0x%x]; in: %s", a - (uintptr_t)ARENA < ARENA_SIZE ? "memory of the heap" : "a global variable", me, write ? "writes" : "reads", n, (size_t)pc, other, owrite ? "write" : "read", opc, sh->where);
  violation("data-race", b);
}
inline void touch(uintptr_t a, size_t n, bool write, void *ret) {
  step_at((void *)a);
  if (!on || in_cut <= 0 || !n) return;
  int me = cur_thread(); if (me < 0 || me >= T) return;
  uintptr_t end = a + n; uint32_t pc = (uintptr_t)ret - (uintptr_t)&__executable_start; const Vc &v = vc[me]; n_acc++;
  while (a < end) {
    uintptr_t g0 = a & ~7ull, g1 = std::min<uintptr_t>(end, g0 + 8); Granule *g = granule(g0, true); if (!g) return;
    uint8_t mask = (uint8_t)(((1u << (g1 - a)) - 1) << (a - g0));
    for (int o = 0; o < T; o++) {
      if (o == me) continue;
      if (g->w[o].clk > v.c[o] && (g->w[o].mask & mask)) report(a, g1 - a, write, me, pc, o, true, g->w[o].pc);
      if (write && g->r[o].clk > v.c[o] && (g->r[o].mask & mask)) report(a, g1 - a, write, me, pc, o, false, g->r[o].pc);
    }
    Slot &s = write ? g->w[me] : g->r[me];
    if (s.clk != v.c[me]) { s.clk = v.c[me]; s.mask = mask; } else s.mask |= mask;
    s.pc = pc; a = g1;
  }
}
Sync &sync_of(const void *p) { return (*syncs)[p]; }
void acquire(const void *p, bool all) { if (!on) return; int me = cur_thread(); if (me < 0 || me >= T) return; SimScope s; auto i = syncs->find(p); if (i == syncs->end()) return; vc[me].join(i->second.w); if (all) vc[me].join(i->second.r); }
void release(const void *p, bool reader) { if (!on) return; int me = cur_thread(); if (me < 0 || me >= T) return; SimScope s; Sync &y = sync_of(p); (reader ? y.r : y.w).join(vc[me]); vc[me].c[me]++; }
void on_alloc(void *p, size_t n) {
  if (!on) return;
  for (uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n; a < e;) {
    uintptr_t pe = std::min<uintptr_t>(e, (a & ~(uintptr_t)(PAGE - 1)) + PAGE); Granule *g = granule(a, false);
    if (g) memset((void *)g, 0, (pe - a + 7) / 8 * sizeof(Granule));
    a = pe;
  }
}
void on_threads(int n, bool start) {
  if (start) {
    if (n > T) internal_error("too many threads for the race detector");
    if (!heap) {
      heap = (Granule **)mmap(nullptr, ARENA_SIZE / PAGE * sizeof *heap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      data = (Granule **)calloc((&_end - &__data_start) / PAGE + 2, sizeof *data); syncs = new std::unordered_map<const void *, Sync>();
      if (heap == MAP_FAILED) internal_error("no shadow");
    }
    for (int i = 0; i < T; i++) { vc[i] = Vc(); vc[i].c[i] = 1; }
  }
  on = start; if (!start) count(CNT_RACE_ACCESSES, n_acc);
}
struct Init { Init() { race = {on_threads, on_alloc, acquire, release}; } } init_;
inline bool acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
char fence_;
inline void before(const volatile void *p, int mo) { step_at((void *)p); if (in_cut > 0 && rel(mo)) release((const void *)p, false); }
inline void after(const volatile void *p, int mo) { if (in_cut > 0 && acq(mo)) acquire((const void *)p, false); }
} // namespace

extern "C" {
void __asan_poison_memory_region(void const volatile *, size_t) {}
void __asan_unpoison_memory_region(void const volatile *, size_t) {}
int __asan_address_is_poisoned(void const volatile *) { return 0; }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { touch((uintptr_t)p, n, false, RA); } void __tsan_write##n(void *p) { touch((uintptr_t)p, n, true, RA); } \
  void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, false, RA); } void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, true, RA); } \
  void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, false, RA); } void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, true, RA); } \
  void __tsan_read_write##n(void *p) { touch((uintptr_t)p, n, true, RA); } void __tsan_unaligned_read_write##n(void *p) { touch((uintptr_t)p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { touch((uintptr_t)p, 8, *p != v, RA); }
void __tsan_vptr_read(void **p) { touch((uintptr_t)p, 8, false, RA); }
void __tsan_read_range(void *p, size_t n) { touch((uintptr_t)p, n, false, RA); }
void __tsan_write_range(void *p, size_t n) { touch((uintptr_t)p, n, true, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { touch((uintptr_t)s, n, false, RA); touch((uintptr_t)d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { touch((uintptr_t)s, n, false, RA); touch((uintptr_t)d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { touch((uintptr_t)d, n, true, RA); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// one atomic operation is one step; the switch, if any, comes before it, so it is indivisible
#define ATOMIC(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty *p, int mo) { step_at((void *)p); ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); after(p, mo); return v; } \
  void __tsan_atomic##b##_store(volatile ty *p, ty v, int mo) { before(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int mo) { before(p, mo); ty r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fmo) { step_at((void *)p); int ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (in_cut > 0 && ok && rel(mo)) { after(p, mo); release((const void *)p, false); } else after(p, ok ? mo : fmo); return ok; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fmo); } \
  ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fmo) { __tsan_atomic##b##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { before(&fence_, mo); after(&fence_, mo); }
void __tsan_atomic_signal_fence(int) {}

// functions of the C library with state that nothing protects
char *__real_strtok(char *, const char *); char *__real_setlocale(int, const char *); char *__real_strerror(int);
static char strtok_state[8], locale_state[8], strerror_state[8];
char *__wrap_strtok(char *s, const char *d) { touch((uintptr_t)strtok_state, 8, true, RA); return __real_strtok(s, d); }
char *__wrap_setlocale(int c, const char *l) { touch((uintptr_t)locale_state, 8, l != nullptr, RA); return __real_setlocale(c, l); }
}
