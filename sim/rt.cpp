#include "rt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ctime>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace rt {
const char *counter_names[CNT_N] = {
  "steps", "ops", "checks", "switches", "switches_at_global_access", "switches_forced_by_fairness",
  "allocations", "allocation_faults", "rejected_calls", "allocation_faults_in_queries",
  "open_failures", "short_reads", "eintr", "read_errors", "short_writes",
  "disk_full", "write_errors", "close_errors", "device_reads", "device_writes",
  "locale_switches", "locale_switches_inside_a_call", "storage_damages", "damaged_rejected", "damaged_accepted",
  "joint_graph_damages", "copies", "threaded_runs", "file_loads", "file_saves", "acknowledged_saves", "exports",
  "repetitions", "link_additions", "config_changes", "queries", "blocked_on_lock", "calls_out_of_memory", "calls_surviving_allocation_fault",
  "underscore_setter_windows", "accesses_judged_for_races", "shapes_compared", "client_switches",
  "changed_environments", "unrelated_calls_in_between", "clock_reads", "random_reads", "blocks_reused_at_once"};
Shared *sh;
bool want_log;
thread_local int in_cut;
Env env;
uint64_t g_steps;
uint64_t g_op_budget = 1200000000ull;
static uint64_t op_start;
uint64_t live_bytes, live_blocks;
Race race;

static void finish(int status) { sh->status = status; sh->counters[CNT_STEPS] = g_steps; fflush(stdout); _exit(0); }

void violation(const std::string &cls, const std::string &msg) {
  in_cut = 0;
  snprintf(sh->vclass, sizeof sh->vclass, "%s", cls.c_str());
  snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg.c_str());
  finish(2);
  _exit(0);
}
void internal_error(const std::string &msg) {
  in_cut = 0;
  snprintf(sh->vclass, sizeof sh->vclass, "internal");
  snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg.c_str());
  finish(3);
  _exit(0);
}
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
void log_hash_bytes(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  uint64_t h = sh->log_hash;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  sh->log_hash = h ^ (h >> 29);
}
void shape_mix(uint64_t v) { sh->shape_hash = mix(sh->shape_hash, v); }
void logf(const char *fmt, ...) {
  SimScope s;
  char buf[2048];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  log_hash_bytes(buf, n);
  if (want_log && sh->log_len + n + 2 < sizeof sh->log) {
    memcpy(sh->log + sh->log_len, buf, n); sh->log_len += n; sh->log[sh->log_len++] = '\n'; sh->log[sh->log_len] = 0;
  }
}

// ------------------------------------------------------------- scheduler
struct Th { pthread_t t; sem_t sem; void (*fn)(void *); void *arg; int state; /*0 ready 1 done*/ bool blocked; int nopre; };
static Th *ths; static int nth; static int cur = -1; static bool sched_on;
static const Switch *sw_list; static size_t sw_n, sw_i;
static uint64_t sw_countdown; // steps (kind 0) / accesses (kind 1) / op boundaries (kind 2)
static uint64_t last_switch_step;
static const uint64_t FAIR = 3000000;
static sem_t main_sem;

static void load_switch() { sw_countdown = sw_i < sw_n ? (sw_list[sw_i].n ? sw_list[sw_i].n : 1) : 0; }
bool scheduling() { return sched_on; }
int cur_thread() { return cur; }

static int pick_other(unsigned p) {
  int cand[64], n = 0;
  for (int i = 0; i < nth; i++) if (i != cur && ths[i].state == 0 && !ths[i].blocked) cand[n++] = i;
  if (!n) return -1;
  return cand[p % n];
}
static void switch_to(int t) {
  int me = cur;
  cur = t;
  count(CNT_SWITCHES);
  last_switch_step = g_steps;
  sem_post(&ths[t].sem);
  while (sem_wait(&ths[me].sem) != 0) {}
}
static void do_switch(unsigned pick, bool rec) {
  int t = pick_other(pick);
  if (rec) { uint64_t v[3] = {g_steps, (uint64_t)cur, (uint64_t)t}; log_hash_bytes(v, sizeof v); }
  if (t < 0) return;
  switch_to(t);
}
static void advance_switch() {
  const Switch &s = sw_list[sw_i];
  if (s.kind == 1) count(CNT_GLOBAL_SWITCHES);
  unsigned p = s.pick;
  sw_i++; load_switch();
  do_switch(p, true);
}
// current thread cannot proceed: let another one run, or report a deadlock
static void block_yield() {
  count(CNT_BLOCKED);
  ths[cur].blocked = true;
  int t = pick_other(0);
  if (t < 0) violation("deadlock", "every thread waits for a lock");
  int me = cur;
  switch_to(t);
  ths[me].blocked = false;
}
static void unblock_all() { for (int i = 0; i < nth; i++) ths[i].blocked = false; }

static void *thread_main(void *p) {
  Th *t = (Th *)p;
  while (sem_wait(&t->sem) != 0) {}
  t->fn(t->arg);
  t->state = 1;
  unblock_all();
  int me = cur;
  int n = pick_other(0);
  if (n < 0) { cur = -1; sem_post(&main_sem); }
  else { cur = n; last_switch_step = g_steps; uint64_t v[3] = {g_steps, (uint64_t)me, (uint64_t)n}; log_hash_bytes(v, sizeof v); sem_post(&ths[n].sem); }
  return nullptr;
}
void run_threads(const std::vector<void (*)(void *)> &fns, const std::vector<void *> &args, const std::vector<Switch> &schedule) {
  nth = fns.size(); ths = new Th[nth];
  sem_init(&main_sem, 0, 0);
  sw_list = schedule.data(); sw_n = schedule.size(); sw_i = 0; load_switch();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
  for (int i = 0; i < nth; i++) {
    ths[i].fn = fns[i]; ths[i].arg = args[i]; ths[i].state = 0; ths[i].blocked = false; ths[i].nopre = 0;
    sem_init(&ths[i].sem, 0, 0);
    if (pthread_create(&ths[i].t, &at, thread_main, &ths[i])) internal_error("pthread_create");
  }
  if (race.threads) race.threads(nth, true);
  cur = 0; sched_on = true; last_switch_step = g_steps;
  sem_post(&ths[0].sem);
  while (sem_wait(&main_sem) != 0) {}
  sched_on = false; if (race.threads) race.threads(nth, false);
  for (int i = 0; i < nth; i++) pthread_join(ths[i].t, nullptr);
  cur = -1;
}
void op_boundary() {
  if (!sched_on || sw_i >= sw_n || sw_list[sw_i].kind != 2) return;
  if (--sw_countdown == 0) advance_switch();
}

// ------------------------------------------------------------- step clock
static uint64_t hook_at; static void (*hook_fn)(void *); static void *hook_arg;
void set_step_hook(uint64_t after, void (*fn)(void *), void *arg) { hook_at = g_steps + after; hook_fn = fn; hook_arg = arg; }
void clear_step_hook() { hook_fn = nullptr; }
void op_begin(const char *what) { op_start = g_steps; snprintf(sh->where, sizeof sh->where, "%s", what); count(CNT_OPS); }
void op_more() { op_start = g_steps; }

static inline void step(const void *addr) {
  if (in_cut <= 0) return;
  ++g_steps;
  if (__builtin_expect(g_steps - op_start > g_op_budget, 0)) {
    if (!sched_on || nth == 1 || g_steps - op_start > g_op_budget * (uint64_t)(nth + 1)) { in_cut = 0; violation("runaway", std::string("still running after its step budget: ") + sh->where); }
  }
  if (__builtin_expect(hook_fn && g_steps >= hook_at, 0)) {
    auto f = hook_fn; hook_fn = nullptr; SimScope s; f(hook_arg);
  }
  if (sched_on && ths[cur].nopre == 0) {
    if (sw_i < sw_n) {
      int k = sw_list[sw_i].kind;
      if (k == 0) { if (--sw_countdown == 0) { SimScope s; advance_switch(); } }
      else if (k == 1 && addr && addr >= (void *)&__data_start && addr < (void *)&_end) {
        if (--sw_countdown == 0) { SimScope s; advance_switch(); }
      }
    }
    if (__builtin_expect(g_steps - last_switch_step > FAIR, 0)) {
      last_switch_step = g_steps; SimScope s; count(CNT_FORCED_SWITCHES); do_switch(0, true);
    }
  }
}

void step_at(const void *addr) { step(addr); }

// ------------------------------------------------------------- allocator
// Everything the code under test allocates comes from an arena at a fixed address, filled by a deterministic
// rule, so that addresses (and whatever depends on them: hash tables keyed by pointers, ordering by pointer)
// are a function of the run alone and not of what the simulator process did before it.  Red zones and freed
// blocks are poisoned, so AddressSanitizer still reports any access to them.
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
extern "C" int __asan_address_is_poisoned(void const volatile *);
static char *const ARENA = (char *)0x200000000000ull; static const size_t ARENA_SIZE = 1ull << 36;
static char *arena_top, *arena_hi; static int arena_lock; static uint64_t pad_state;
struct Hdr { uint64_t magic; uint64_t n; uint64_t total; Hdr *next; }; // 32 bytes in front of every block
static const uint64_t LIVE = 0xa11c0c8ea11c0c8eull, DEAD = 0xdeadb10cdeadb10cull, ALIGNED = 1ull << 63;
static const int SMALL = 512; static Hdr *freelist[SMALL + 64 * 4]; static Hdr *q_head, *q_tail; static size_t q_bytes;
static bool in_arena(const void *p) { return (const char *)p >= ARENA && (const char *)p < ARENA + ARENA_SIZE; }
static int size_class(size_t &total) { // rounds total up to the size of its class
  if (total <= 16 * SMALL - 16) { total = (total + 15) & ~15ull; return total / 16; }
  int b = 63 - __builtin_clzll(total); size_t q = 1ull << (b - 2); total = (total + q - 1) & ~(q - 1);
  b = 63 - __builtin_clzll(total); return SMALL + b * 4 + (total >> (b - 2)) % 4;
}
struct Lock { Lock() { while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); } ~Lock() { __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE); } };
static void *arena_alloc(size_t n, size_t align, bool zero) {
  if (n > (1ull << 31)) return nullptr; // as a 32-bit-sized machine would
  size_t right = std::min<size_t>(2048, std::max<size_t>(16, n / 8)), total = sizeof(Hdr) + n + right; int cls = size_class(total);
  Hdr *h; char *u;
  {
    Lock l; h = align > 16 ? nullptr : freelist[cls];
    if (h) { freelist[cls] = h->next; u = (char *)(h + 1); if (!env.quarantine) count(CNT_REUSED); }
    else {
      size_t gap = 0; if (env.pad) { if (!pad_state) pad_state = env.pad | 1; pad_state ^= pad_state << 13; pad_state ^= pad_state >> 7; pad_state ^= pad_state << 17; gap = pad_state % 64 * 16; if (pad_state >> 32 & 15) gap &= 127; }
      char *base;
      if (env.down) { u = arena_hi - gap - total + sizeof(Hdr); u = (char *)((uintptr_t)u & ~(uintptr_t)(std::max<size_t>(align, 16) - 1)); base = u - sizeof(Hdr); if (base < arena_top) return nullptr; arena_hi = base; }
      else { u = arena_top + gap + sizeof(Hdr); if (align > 16) u = (char *)(((uintptr_t)u + align - 1) & ~(uintptr_t)(align - 1)); base = u - sizeof(Hdr); if (base + total > arena_hi) return nullptr; arena_top = base + total; }
      h = (Hdr *)base;
    }
    h->magic = LIVE; h->n = n; h->total = total | (align > 16 ? ALIGNED : 0); h->next = nullptr;
    live_bytes += n; live_blocks++;
  }
  __asan_poison_memory_region(h, total); __asan_unpoison_memory_region(u, n);
  if (race.alloc) race.alloc(u, n);
  if (zero) memset(u, 0, n); else if (env.fill >= 0) memset(u, env.fill, std::min<size_t>(n, 65536));
  if (live_bytes > (1ull << 30)) { in_cut = 0; violation("runaway-memory", std::string("more than 1 GB of live memory in: ") + sh->where); }
  return u;
}
static Hdr *arena_hdr(void *p, const char *what) {
  Hdr *h = (Hdr *)p - 1;
  if ((char *)h < ARENA || ((uintptr_t)p & 15) || (h->magic != LIVE && h->magic != DEAD)) { in_cut = 0; violation("crash:bad-free", std::string(what) + " of an address that is not a block, in: " + sh->where); }
  if (h->magic == DEAD) { in_cut = 0; violation("crash:double-free", std::string(what) + " of memory already released, in: " + sh->where); }
  return h;
}
static void arena_free(void *p) {
  Hdr *h = arena_hdr(p, "release"); Lock l;
  live_bytes -= h->n; live_blocks--; h->magic = DEAD; __asan_poison_memory_region(p, h->n ? h->n : 1);
  if (h->total & ALIGNED) return;
  h->next = nullptr; if (q_tail) q_tail->next = h; else q_head = h; q_tail = h; q_bytes += h->total;
  while (q_bytes > env.quarantine) { Hdr *o = q_head; q_head = o->next; if (!q_head) q_tail = nullptr; q_bytes -= o->total; size_t t = o->total; int c = size_class(t); o->next = freelist[c]; freelist[c] = o; }
}
static bool armed, fired, persistent; static uint64_t fail_at, n_alloc;
void alloc_arm(uint64_t at, bool pers) { armed = true; fired = false; persistent = pers; fail_at = at; n_alloc = 0; }
uint64_t alloc_disarm() { armed = false; return n_alloc; }
bool alloc_fired() { return fired; }
bool alloc_armed() { return armed; }
static inline bool should_fail() {
  if (in_cut <= 0) return false;
  if (sh) sh->counters[CNT_ALLOCS]++;
  if (!armed) return false;
  ++n_alloc;
  if (n_alloc == fail_at || (persistent && n_alloc > fail_at)) {
    fired = true; sh->counters[CNT_ALLOC_FAULTS]++; return true;
  }
  return false;
}

// ------------------------------------------------------------- what the stack holds, clocks, random sources
__attribute__((noinline)) void dirty_stack() {
  char *p = (char *)__builtin_alloca(1 << 16); size_t n = 1 << 16; int v = env.stack;
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory");
}
static uint64_t ticks, draws;
void set_env(const Env &e) { env = e; if (e.random) { srand(e.random); srandom(e.random); srand48(e.random); } }
static bool sim_clock() { return in_cut > 0 && env.clock; }
static uint64_t now_ns() { count(CNT_CLOCK); return env.clock * 1000003ull + ++ticks * (1 + env.clock % 100000); }
static bool sim_random() { return in_cut > 0 && env.random; }
static uint64_t draw() { count(CNT_RANDOM); uint64_t z = env.random + ++draws * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// ------------------------------------------------------------- disk
std::map<std::string, std::string> *disk;
IoFaults io; IoFired io_fired; int io_open_handles;
static const char PREFIX[] = "/simdisk/";
static const int FD0 = 1000000;
struct Handle { bool used; std::string path; long pos; bool rd, wr, append; FILE *f; int calls; size_t chunk_i; int err_after; };
static Handle *handles; static const int NH = 64;
static bool is_sim(const char *p) { return p && disk && strncmp(p, PREFIX, sizeof PREFIX - 1) == 0; }
void io_reset(const IoFaults &f) { io = f; io_fired = IoFired(); }

static int h_open(const char *path, bool rd, bool wr, bool creat, bool trunc, bool append) {
  if (io.open_errno) { io_fired.open_fail++; count(CNT_IO_OPEN_FAIL); errno = io.open_errno; return -1; }
  std::string p(path);
  if (!disk->count(p)) { if (!creat) { errno = ENOENT; return -1; } (*disk)[p] = ""; }
  if (trunc) (*disk)[p] = "";
  for (int i = 0; i < NH; i++) if (!handles[i].used) {
    Handle &h = handles[i]; h.used = true; h.path = p; h.pos = 0; h.rd = rd; h.wr = wr; h.append = append; h.f = nullptr; h.calls = 0; h.chunk_i = 0;
    io_open_handles++;
    return i;
  }
  errno = EMFILE; return -1;
}
static bool take_eintr(Handle &h) {
  int c = h.calls++;
  if (c < 64 && (io.eintr_mask >> c) & 1) { io_fired.eintr++; count(CNT_IO_EINTR); return true; }
  return false;
}
static size_t chunk(Handle &h, size_t n) {
  if (io.chunks.empty()) return n;
  size_t c = io.chunks[h.chunk_i++ % io.chunks.size()];
  if (c == 0) c = 1;
  return c < n ? c : n;
}
static ssize_t h_read(int i, char *buf, size_t n) {
  Handle &h = handles[i];
  count(CNT_IO_READS); io_fired.reads++;
  if (!h.rd) { errno = EBADF; return -1; }
  if (take_eintr(h)) { errno = EINTR; return -1; }
  const std::string &d = (*disk)[h.path];
  long avail = (long)d.size() - h.pos; if (avail < 0) avail = 0;
  long lim = avail;
  if (io.eio_read_at >= 0 && h.pos + lim > io.eio_read_at) lim = io.eio_read_at - h.pos;
  if (io.eio_read_at >= 0 && lim <= 0 && h.pos >= io.eio_read_at) { io_fired.eio_read++; count(CNT_IO_EIO_READ); errno = EIO; return -1; }
  size_t want = n < (size_t)lim ? n : (size_t)lim;
  size_t c = chunk(h, want);
  if (c < want) { io_fired.short_read++; count(CNT_IO_SHORT_READ); }
  memcpy(buf, d.data() + h.pos, c); h.pos += c;
  return c;
}
static ssize_t h_write(int i, const char *buf, size_t n) {
  Handle &h = handles[i];
  count(CNT_IO_WRITES); io_fired.writes++;
  if (!h.wr) { errno = EBADF; return -1; }
  if (take_eintr(h)) { errno = EINTR; return -1; }
  std::string &d = (*disk)[h.path];
  if (h.append) h.pos = d.size();
  size_t c = chunk(h, n);
  if (c < n) { io_fired.short_write++; count(CNT_IO_SHORT_WRITE); }
  if (io.enospc_at >= 0 && h.pos + (long)c > io.enospc_at) {
    long room = io.enospc_at - h.pos;
    if (room <= 0) { io_fired.enospc++; count(CNT_IO_ENOSPC); errno = ENOSPC; return -1; }
    c = room; io_fired.enospc++; count(CNT_IO_ENOSPC);
  }
  if (io.eio_write_at >= 0 && h.pos + (long)c > io.eio_write_at) {
    io_fired.eio_write++; count(CNT_IO_EIO_WRITE); errno = EIO; return -1;
  }
  if ((long)d.size() < h.pos + (long)c) d.resize(h.pos + c);
  memcpy(&d[h.pos], buf, c); h.pos += c;
  return c;
}
static int h_close(int i) {
  Handle &h = handles[i];
  if (!h.used) { errno = EBADF; return -1; }
  h.used = false; io_open_handles--;
  if (io.close_errno && h.wr) {
    io_fired.close_err++; count(CNT_IO_CLOSE_ERR);
    std::string &d = (*disk)[h.path];
    if (io.lost_from >= 0 && (long)d.size() > io.lost_from) d.resize(io.lost_from);
    errno = io.close_errno; return -1;
  }
  return 0;
}
static long h_seek(int i, long off, int whence) {
  Handle &h = handles[i];
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h.pos : (long)(*disk)[h.path].size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  return h.pos = base + off;
}
static ssize_t ck_read(void *c, char *b, size_t n) { SimScope s; return h_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  // like stdio on a real descriptor: short writes are continued, errors are not
  SimScope s; size_t done = 0;
  while (done < n) { ssize_t k = h_write((int)(long)c, b + done, n - done); if (k < 0) return done ? (ssize_t)done : 0; done += k; }
  return done;
}
static int ck_seek(void *c, off64_t *o, int w) { SimScope s; long r = h_seek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { SimScope s; return h_close((int)(long)c); }
static FILE *sim_fopen(const char *path, const char *mode) {
  SimScope s;
  bool plus = strchr(mode, '+');
  bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
  int i = h_open(path, r || plus, w || a || plus, w || a, w, a);
  if (i < 0) return nullptr;
  cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(long)i, mode, fn);
  if (!f) { h_close(i); return nullptr; }
  if (io.stdio_buf > 0) { setvbuf(f, nullptr, _IOFBF, io.stdio_buf); }
  handles[i].f = f;
  return f;
}
static int fd_of(int fd) { return fd >= FD0 && fd < FD0 + NH && handles && handles[fd - FD0].used ? fd - FD0 : -1; }
static int sim_open(const char *path, int flags) {
  SimScope s; int acc = flags & O_ACCMODE;
  int i = h_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND);
  return i < 0 ? -1 : FD0 + i;
}
static void fill_stat(struct stat *st, const std::string &p) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (*disk)[p].size(); st->st_nlink = 1; st->st_blksize = 4096; }

void init(bool log) {
  want_log = log;
  arena_top = ARENA; arena_hi = ARENA + ARENA_SIZE;
  if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) internal_error("no arena");
  disk = new std::map<std::string, std::string>();
  handles = new Handle[NH]();
}
} // namespace rt

// ================================================================= coverage
using namespace rt;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t n; if (a == b || *a) return;
  for (uint32_t *x = a; x < b; x++) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (in_cut > 0) { if (sh) sh->covmap[*g & 0xffff] = 1; step(nullptr); } }
#define LS(n) void __sanitizer_cov_load##n(void *p) { step(p); } void __sanitizer_cov_store##n(void *p) { step(p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __sanitizer_cov_trace_pc_indir(uintptr_t) {}

// ---------------------------------------------------------------- locks
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (!r && rt::scheduling() && race.acquire) race.acquire(m, true); return r; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!rt::scheduling()) return __real_pthread_mutex_lock(m);
  while (true) { int r = __wrap_pthread_mutex_trylock(m); if (r != EBUSY) return r; SimScope s; block_yield(); }
}
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (race.release) race.release(m, false); int r = __real_pthread_mutex_unlock(m); if (rt::scheduling()) unblock_all(); return r; }
// read-write locks that are held for writing now; giving one up says whether it was
static pthread_rwlock_t *wr_held[64]; static int n_wr;
static bool wr_owner(pthread_rwlock_t *m, bool take) {
  if (take) { if (n_wr < 64) wr_held[n_wr++] = m; return true; }
  for (int i = 0; i < n_wr; i++) if (wr_held[i] == m) { wr_held[i] = wr_held[--n_wr]; return true; }
  return false;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_tryrdlock(m); if (!r && rt::scheduling() && race.acquire) race.acquire(m, false); return r; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_trywrlock(m); if (!r && rt::scheduling()) { wr_owner(m, true); if (race.acquire) race.acquire(m, true); } return r; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!rt::scheduling()) return __real_pthread_rwlock_rdlock(m);
  while (true) { int r = __wrap_pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; SimScope s; block_yield(); }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!rt::scheduling()) return __real_pthread_rwlock_wrlock(m);
  while (true) { int r = __wrap_pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; SimScope s; block_yield(); }
}
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { bool w = wr_owner(m, false); if (race.release) race.release(m, !w); int r = __real_pthread_rwlock_unlock(m); if (rt::scheduling()) unblock_all(); return r; }
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  int c = rt::scheduling() ? rt::cur_thread() : -1;
  if (c >= 0) ths[c].nopre++;
  bool done = *o & 2; int r = __real_pthread_once(o, f);
  if (race.release && !done) race.release(o, false);
  if (race.acquire) race.acquire(o, false);
  if (c >= 0) ths[c].nopre--;
  return r;
}
// initialisation of function-local statics
static struct { void *g; int owner; } guards[64]; static int n_guards;
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *); void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *g) {
  if (!rt::scheduling()) return __real___cxa_guard_acquire(g);
  while (true) {
    bool busy = false;
    for (int i = 0; i < n_guards; i++) if (guards[i].g == g && guards[i].owner != rt::cur_thread()) busy = true;
    if (!busy) break;
    SimScope s; block_yield();
  }
  int r = __real___cxa_guard_acquire(g);
  if (!r && race.acquire) race.acquire(g, false);
  if (r && n_guards < 64) { guards[n_guards].g = g; guards[n_guards++].owner = rt::cur_thread(); }
  return r;
}
static void drop_guard(void *g) {
  for (int i = 0; i < n_guards; i++) if (guards[i].g == g) { guards[i] = guards[--n_guards]; break; }
  if (rt::scheduling()) unblock_all();
}
void __wrap___cxa_guard_release(void *g) { if (race.release) race.release(g, false); __real___cxa_guard_release(g); drop_guard(g); }
void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); drop_guard(g); }

// ---------------------------------------------------------------- malloc family (references from linked objects)
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static bool mine() { return in_cut > 0 && arena_top; }
void *__wrap_malloc(size_t n) { if (should_fail()) { errno = ENOMEM; return nullptr; } if (!mine()) return __real_malloc(n); void *p = arena_alloc(n, 16, false); if (!p) errno = ENOMEM; return p; }
void *__wrap_calloc(size_t a, size_t b) {
  if (should_fail()) { errno = ENOMEM; return nullptr; } if (!mine()) return __real_calloc(a, b);
  size_t n; void *p = __builtin_mul_overflow(a, b, &n) ? nullptr : arena_alloc(n, 16, true); if (!p) errno = ENOMEM; return p;
}
void __wrap_free(void *p) { if (in_arena(p)) arena_free(p); else __real_free(p); }
void *__wrap_realloc(void *q, size_t n) {
  if (should_fail()) { errno = ENOMEM; return nullptr; }
  if (q ? !in_arena(q) : !mine()) return __real_realloc(q, n);
  if (q && !n) { arena_free(q); return nullptr; }
  size_t old = q ? arena_hdr(q, "realloc")->n : 0; void *p = arena_alloc(n, 16, false); if (!p) { errno = ENOMEM; return p; }
  if (q) { memcpy(p, q, std::min(old, n)); arena_free(q); } return p;
}
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (should_fail()) return ENOMEM; if (!mine()) return __real_posix_memalign(o, a, n); void *p = arena_alloc(n, a, false); if (!p) return ENOMEM; *o = p; return 0; }
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n) { if (should_fail()) { errno = ENOMEM; return nullptr; } if (!mine()) return __real_aligned_alloc(a, n); void *p = arena_alloc(n, a, false); if (!p) errno = ENOMEM; return p; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
} // extern C

static void *new_impl(size_t n) { if (should_fail()) return nullptr; return in_cut > 0 && arena_top ? arena_alloc(n, 16, false) : __real_malloc(n ? n : 1); }
static void del_impl(void *p) { if (!p) return; if (in_arena(p)) arena_free(p); else __real_free(p); }
void *operator new(size_t n) { void *p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_impl(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_impl(n); }
void operator delete(void *p) noexcept { del_impl(p); }
void operator delete[](void *p) noexcept { del_impl(p); }
void operator delete(void *p, size_t) noexcept { del_impl(p); }
void operator delete[](void *p, size_t) noexcept { del_impl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del_impl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del_impl(p); }

// ================================================================= libc file calls (also those made by libstdc++)
extern "C" {
typedef FILE *(*fopen_t)(const char *, const char *);
FILE *fopen(const char *p, const char *m) { if (is_sim(p)) return sim_fopen(p, m); static fopen_t real = (fopen_t)dlsym(RTLD_NEXT, "fopen"); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fileno(FILE *f) noexcept {
  if (handles) for (int i = 0; i < NH; i++) if (handles[i].used && handles[i].f == f) return FD0 + i;
  static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno"); return real(f);
}
ssize_t read(int fd, void *b, size_t n) { int i = fd_of(fd); if (i >= 0) { SimScope s; return h_read(i, (char *)b, n); } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { int i = fd_of(fd); if (i >= 0) { SimScope s; return h_write(i, (const char *)b, n); } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  int i = fd_of(fd);
  if (i < 0) return syscall(SYS_writev, fd, v, c);
  SimScope s; ssize_t t = 0;
  for (int k = 0; k < c; k++) { if (!v[k].iov_len) continue; ssize_t r = h_write(i, (const char *)v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[k].iov_len) break; }
  return t;
}
off_t lseek(int fd, off_t o, int w) noexcept { int i = fd_of(fd); if (i >= 0) return h_seek(i, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat *st) noexcept { int i = fd_of(fd); if (i >= 0) { SimScope s; fill_stat(st, handles[i].path); return 0; } return syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept {
  if (is_sim(p)) { SimScope s; if (!disk->count(p)) { errno = ENOENT; return -1; } fill_stat(st, p); return 0; }
  return syscall(SYS_stat, p, st);
}
int access(const char *p, int m) noexcept { if (is_sim(p)) { SimScope s; if (!disk->count(p)) { errno = ENOENT; return -1; } return 0; } return syscall(SYS_access, p, m); }
int rename(const char *a, const char *b) noexcept {
  if (is_sim(a) && is_sim(b)) { SimScope s; if (!disk->count(a)) { errno = ENOENT; return -1; } std::string t = (*disk)[a]; disk->erase(a); (*disk)[b] = t; return 0; }
  return syscall(SYS_rename, a, b);
}
int unlink(const char *p) noexcept { if (is_sim(p)) { SimScope s; if (!disk->erase(p)) { errno = ENOENT; return -1; } return 0; } return syscall(SYS_unlink, p); }
int remove(const char *p) noexcept { return unlink(p); }
int fsync(int fd) { if (fd_of(fd) >= 0) return 0; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int poll(struct pollfd *f, nfds_t n, int t) { if (n == 1 && fd_of(f[0].fd) >= 0) { f[0].revents = POLLIN; return 1; } return syscall(SYS_poll, f, n, t); }
int close(int fd) { int i = fd_of(fd); if (i >= 0) { SimScope s; return h_close(i); } return syscall(SYS_close, fd); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (is_sim(p)) return sim_open(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (is_sim(p)) return sim_open(p, fl); return syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, m); }

// ---------------------------------------------------------------- clocks and random sources (also those read by libstdc++)
int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (!sim_clock()) return syscall(SYS_clock_gettime, c, t); uint64_t n = now_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int gettimeofday(struct timeval *t, void *) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *o) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
pid_t getpid() noexcept { return sim_random() ? 1000 + env.random % 30000 : syscall(SYS_getpid); }
unsigned __real__ZNSt13random_device9_M_getvalEv(void *);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *d) { return sim_random() ? draw() : __real__ZNSt13random_device9_M_getvalEv(d); }
}
