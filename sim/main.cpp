// One process per run: fork, execute, judge.
#include "plan.h"
#include "rt.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace rt;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:symbolize=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=202:handle_abort=0:quarantine_size_mb=8:detect_stack_use_after_return=0:log_path=stderr:max_allocation_size_mb=4096"; }

struct Result { int status = 1; std::string cls, msg, log, out; uint64_t hash = 0, shape = 0; int nontrivial = 0; uint64_t counters[CNT_N] = {0}; };
static void on_prof(int) { if (sh) { snprintf(sh->vclass, sizeof sh->vclass, "runaway"); snprintf(sh->vmsg, sizeof sh->vmsg, "no progress in 60 s of processor time: %s", sh->where); sh->status = 2; } _exit(0); }
static uint8_t cov_total[1 << 16];

static Result run_phase(const Plan &p, int phase, bool log) {
  memset((void *)sh, 0, offsetof(Shared, out)); sh->out_len = sh->log_len = 0; sh->log[0] = 0;
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(2); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_prof); struct itimerval it = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
    init(log); execute(p, phase);
    sh->status = 1; sh->counters[CNT_STEPS] = g_steps; _exit(0);
  }
  close(pfd[1]); std::string err; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n); close(pfd[0]);
  int st = 0; waitpid(pid, &st, 0);
  Result r; r.status = sh->status; r.cls = sh->vclass; r.msg = sh->vmsg;
  if (r.status == 0) {
    r.status = 2; std::string kind = "crash";
    if (WIFSIGNALED(st)) kind += std::string(":") + (WTERMSIG(st) == SIGSEGV ? "SIGSEGV" : WTERMSIG(st) == SIGABRT ? "SIGABRT" : WTERMSIG(st) == SIGILL ? "SIGILL" : WTERMSIG(st) == SIGKILL ? "SIGKILL" : "signal " + std::to_string(WTERMSIG(st)));
    auto a = err.find("AddressSanitizer: "); if (a != std::string::npos) { auto e = err.find_first_of(" \n", a + 18); kind = "crash:" + err.substr(a + 18, e - a - 18); while (!kind.empty() && kind.back() == ':') kind.pop_back(); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.status = 3; kind = "killed"; }
    r.cls = kind; for (char &c : err) if (c == '\n') c = ' ';
    r.msg = "crashed in: " + std::string(sh->where) + "; " + err.substr(0, 700);
  }
  r.hash = sh->log_hash; r.shape = sh->shape_hash; r.nontrivial = sh->nontrivial; memcpy(r.counters, sh->counters, sizeof r.counters);
  r.log.assign(sh->log, sh->log_len); r.out.assign(sh->out, sh->out_len);
  for (size_t i = 0; i < sizeof cov_total; i++) cov_total[i] |= sh->covmap[i];
  return r;
}
static Result run_plan(const Plan &p, bool log) {
  if (race_variant() != (p.knob("race", 0) != 0)) { Result r; r.status = 3; r.cls = "internal"; r.msg = "this plan belongs to the other variant of the simulator"; return r; }
  std::vector<std::string> solo; bool inconclusive = false; uint64_t extra = 0;
  for (int i = 0; i < solo_phases(p); i++) { Result s = run_phase(p, i, false); if (s.status == 3) return s; if (s.status != 1) inconclusive = true; solo.push_back(s.out); extra = extra * 31 + s.hash; }
  if (inconclusive) { Result r; r.status = 4; r.cls = "inconclusive"; r.msg = "a thread run alone already fails"; r.hash = extra; return r; }
  Result r = run_phase(p, -1, log); r.hash ^= extra * 0x9e3779b97f4a7c15ull;
  if (r.status == 1 && !solo.empty()) { std::string cls, d = compare_outputs(p, r.out, solo, cls); if (!d.empty()) { r.status = 2; r.cls = cls; r.msg = d; } }
  return r;
}
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void print_result(const Result &r, uint64_t seed) {
  std::ostringstream o; o << "{\"seed\":" << seed << ",\"status\":" << r.status << ",\"class\":" << js(r.cls) << ",\"msg\":" << js(r.msg) << ",\"hash\":\"" << std::hex << r.hash << "\",\"shape\":\"" << r.shape << "\"" << std::dec << ",\"nontrivial\":" << r.nontrivial << ",\"c\":[";
  for (int i = 0; i < CNT_N; i++) o << (i ? "," : "") << r.counters[i];
  o << "]}"; puts(o.str().c_str()); fflush(stdout);
}
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  if (argc < 2) return 2;
  if (const char *d = getenv("SIM_DATA")) data_dir = d;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string mode = argv[1];
  if (mode == "counters") { for (int i = 0; i < CNT_N; i++) puts(counter_names[i]); return 0; }
  if (mode == "gen") { fputs(plan_text(generate(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 && atoi(argv[4]))).c_str(), stdout); return 0; }
  if (mode == "run") { std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); Plan p = plan_parse(ss.str()); bool v = argc > 3; Result r = run_plan(p, v); if (v) { fputs(r.log.c_str(), stdout); } print_result(r, p.seed); return 0; }
  if (mode == "batch") { // prop first count stride thorough
    uint64_t s = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10), st = strtoull(argv[5], nullptr, 10); bool th = atoi(argv[6]);
    // every plan goes through its text form, so that a run and its replay are the same thing
    for (uint64_t i = 0; i < n; i++, s += st) print_result(run_plan(plan_parse(plan_text(generate(argv[2], s, th))), false), s);
    int edges = 0; for (auto c : cov_total) edges += c; printf("{\"edges\":%d,\"map\":\"", edges);
    for (size_t i = 0; i < sizeof cov_total; i += 8) { int b = 0; for (int k = 0; k < 8; k++) b |= (cov_total[i + k] != 0) << k; if (b) printf("%zx:%02x ", i / 8, b); } puts("\"}");
    return 0;
  }
  return 2;
}
