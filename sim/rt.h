// Runtime of the simulator: every seam through which the code under test (CUT)
// touches something nondeterministic.  Compiled without any instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- counters
enum Counter {
  CNT_STEPS, CNT_OPS, CNT_CHECKS, CNT_SWITCHES, CNT_GLOBAL_SWITCHES, CNT_FORCED_SWITCHES,
  CNT_ALLOCS, CNT_ALLOC_FAULTS, CNT_REJECTED_CALLS, CNT_QUERY_ALLOC_FAULTS,
  CNT_IO_OPEN_FAIL, CNT_IO_SHORT_READ, CNT_IO_EINTR, CNT_IO_EIO_READ, CNT_IO_SHORT_WRITE,
  CNT_IO_ENOSPC, CNT_IO_EIO_WRITE, CNT_IO_CLOSE_ERR, CNT_IO_READS, CNT_IO_WRITES,
  CNT_LOCALE_SWITCH, CNT_LOCALE_SWITCH_INSIDE, CNT_DAMAGE, CNT_DAMAGE_REJECTED, CNT_DAMAGE_ACCEPTED,
  CNT_GRAPH_DAMAGE, CNT_COPIES, CNT_THREAD_RUNS, CNT_LOADS, CNT_SAVES, CNT_SAVE_ACKS, CNT_EXPORTS,
  CNT_REPEATS, CNT_ADDS, CNT_CONFIG_CHANGES, CNT_QUERIES, CNT_BLOCKED, CNT_OOM_CALLS, CNT_OOM_SURVIVED,
  CNT_STALE_WINDOWS, CNT_RACE_ACCESSES, CNT_SHAPES, CNT_CLIENT_SWITCH,
  CNT_LAYOUTS, CNT_NOISE, CNT_CLOCK, CNT_RANDOM, CNT_REUSED, CNT_N
};
extern const char *counter_names[CNT_N];

// Result of one run, in memory shared with the parent process.
struct Shared {
  uint64_t counters[CNT_N];
  uint64_t log_hash;      // hash of the whole event log
  uint64_t shape_hash;    // what the run was, for counting distinct runs
  int nontrivial;
  int status;             // 0 running, 1 done, 2 violation, 3 internal error
  char vclass[128];       // class of the violation (stable under minimisation)
  char vmsg[4000];
  char where[256];        // what was being done (for crashes)
  size_t out_len;
  size_t log_len;
  uint8_t covmap[1 << 16];
  char out[6 << 20];      // recorded outputs (thread isolation)
  char log[2 << 20];      // human readable log
};
extern Shared *sh;
inline void count(Counter c, uint64_t n = 1) { if (sh) sh->counters[c] += n; }

[[noreturn]] void violation(const std::string &cls, const std::string &msg); // ends the process
[[noreturn]] void internal_error(const std::string &msg);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void log_hash_bytes(const void *p, size_t n);
void shape_mix(uint64_t v);
extern bool want_log;

// ---------------------------------------------------------------- CUT scope
extern thread_local int in_cut; // >0: code under test is running on this thread
// What a process cannot choose: where its memory lies and what it holds, what clocks and random sources say.
struct Env {
  bool down = false;          // fresh memory is handed out from high addresses to low ones
  uint64_t pad = 0;           // gaps of random size between fresh blocks, 0: none
  int fill = 0xca;            // what fresh memory holds; -1: what was there before
  size_t quarantine = 4u << 20; // released memory is reused after so many bytes more were released
  int stack = -1;             // what the unused part of the stack holds when a call starts; -1: whatever it happens to hold
  uint64_t clock = 0, random = 0; // start of the clocks, of the random sources and of the process id; 0: the real ones
};
extern Env env;
void set_env(const Env &e);                // before the code under test has run
void dirty_stack();
struct CutScope { CutScope() { if (!in_cut++ && env.stack >= 0) dirty_stack(); } ~CutScope() { --in_cut; } };
struct SimScope { int saved; SimScope() : saved(in_cut) { in_cut = 0; } ~SimScope() { in_cut = saved; } };

// ---------------------------------------------------------------- step clock
extern uint64_t g_steps;
void op_begin(const char *what);         // resets the per-operation budget
void op_more();                            // the same, within one operation that does many bounded things
extern uint64_t g_op_budget;
void set_step_hook(uint64_t after_steps, void (*fn)(void *), void *arg); // once, inside this operation
void clear_step_hook();

// ---------------------------------------------------------------- scheduler
struct Switch { int kind; uint64_t n; unsigned pick; }; // kind 0: n steps, 1: n-th access to a writable global, 2: n-th op boundary
void run_threads(const std::vector<void (*)(void *)> &fns, const std::vector<void *> &args,
                 const std::vector<Switch> &schedule);
void op_boundary();                      // called by the client between operations
bool scheduling();
int cur_thread();

// ---------------------------------------------------------------- happens-before (race variant only)
struct Race { void (*threads)(int n, bool start); void (*alloc)(void *, size_t); void (*acquire)(const void *, bool all); void (*release)(const void *, bool reader); };
extern Race race;                        // empty in the ordinary variant
void step_at(const void *addr);
inline bool race_variant() { return race.threads != nullptr; }

// ---------------------------------------------------------------- allocator
void alloc_arm(uint64_t fail_at, bool persistent); // fail the fail_at-th (1-based) CUT allocation
uint64_t alloc_disarm();                 // returns number of CUT allocations since arm
bool alloc_fired();
bool alloc_armed();
extern uint64_t live_bytes, live_blocks;

// ---------------------------------------------------------------- disk
struct IoFaults {
  int open_errno = 0;
  std::vector<size_t> chunks;      // sizes of successive device transfers (cycled), empty: unlimited
  uint64_t eintr_mask = 0;         // bit i: i-th device read/write call returns EINTR first
  long eio_read_at = -1;           // reading beyond this offset fails
  long enospc_at = -1;             // device capacity in bytes
  long eio_write_at = -1;          // writing beyond this offset fails with EIO
  int close_errno = 0;             // close fails with this error (data lost from lost_from on)
  long lost_from = -1;             // delayed allocation: bytes from here on never reach the disk (close reports)
  int stdio_buf = 0;               // stdio buffer size (0 default)
};
extern std::map<std::string, std::string> *disk;
extern IoFaults io;
extern int io_open_handles;
struct IoFired { int open_fail, short_read, eintr, eio_read, short_write, enospc, eio_write, close_err, reads, writes; };
extern IoFired io_fired;
void io_reset(const IoFaults &f);

void init(bool log);
} // namespace rt
