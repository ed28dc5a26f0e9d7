// Preloaded into the interpreter for the import simulation. Inactive until enabled; then every call that reaches
// a path or descriptor under the scratch directory, every clock reading, random byte, sleep, lock and process id is
// decided by the scheduler at the other end of the control socket.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

namespace {
enum Act { PROCEED, FAIL, SHORT, CRASH_BEFORE, CRASH_AFTER, INTERRUPT, TORN };
struct Req {
  int64_t n;
  char op[16];
  char path[400];
};
struct Rep {
  int64_t act, val, now, pad;
};
int ctl = -1;
bool on = false;
char prefix[256], cwd[512];
size_t plen = 0;
int64_t now_ns = 0;
uint64_t rnd = 1;
int spid = 0;
bool tracked[4096];

[[noreturn]] void die() {
  syscall(SYS_exit_group, 137);
  __builtin_unreachable();
}
bool all(int fd, void *b, size_t n, bool wr) {
  char *p = (char *)b;
  while (n) {
    long k = syscall(wr ? SYS_write : SYS_read, fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    p += k;
    n -= k;
  }
  return true;
}
const char *rel(const char *p) {
  return !strncmp(p, prefix, plen) ? p + plen : p;
}
Rep ask(const char *op, const char *path, int64_t n) {
  int e = errno;
  Req q;
  memset(&q, 0, sizeof q);
  q.n = n;
  strncpy(q.op, op, sizeof q.op - 1);
  strncpy(q.path, path ? path : "", sizeof q.path - 1);
  Rep r;
  if (!all(ctl, &q, sizeof q, true) || !all(ctl, &r, sizeof r, false)) die();
  if (r.now > now_ns) now_ns = r.now;
  if (r.act == CRASH_BEFORE) die();
  if (r.act == INTERRUPT) raise(SIGINT);
  errno = e;
  return r;
}
bool fdt(int fd) { return on && fd >= 0 && fd < 4096 && tracked[fd]; }
// the path a call means, if it is under the scratch directory
bool under(int dirfd, const char *p, char *out) {
  if (!on || !p) return false;
  if (p[0] == '/') {
    if (strncmp(p, prefix, plen)) return false;
    snprintf(out, 400, "%s", p + plen);
    return true;
  }
  if (dirfd == AT_FDCWD) {
    if (!getcwd(cwd, sizeof cwd) || strncmp(cwd, prefix, plen)) return false;
    snprintf(out, 400, "%s/%s", cwd + plen, p);
    return true;
  }
  if (!fdt(dirfd)) return false;
  snprintf(out, 400, "@/%s", p);
  return true;
}
void stamp(int fd) {
  struct timespec t[2];
  t[0].tv_sec = t[1].tv_sec = now_ns / 1000000000;
  t[0].tv_nsec = t[1].tv_nsec = now_ns % 1000000000;
  syscall(SYS_utimensat, fd, (char *)0, t, 0);
}
template <typename F> F real(F &f, const char *name) {
  if (!f) f = (F)dlsym(RTLD_NEXT, name);
  return f;
}
template <typename T> T finish(const Rep &r, T v) {
  if (r.act == CRASH_AFTER || r.act == TORN) die();
  return v;
}
} // namespace
#define PRE(opname, path, num)                                                                                        \
  Rep r = ask(opname, path, num);                                                                                      \
  if (r.act == FAIL) {                                                                                                 \
    errno = (int)r.val;                                                                                                \
    return -1;                                                                                                         \
  }

extern "C" {
__attribute__((visibility("default"))) void sysshim_enable(int fd, const char *pre, int pid, uint64_t seed, int64_t now) {
  ctl = fd;
  snprintf(prefix, sizeof prefix, "%s", pre);
  plen = strlen(prefix);
  spid = pid;
  rnd = seed * 0x9E3779B97F4A7C15ull + 12345;
  now_ns = now;
  memset(tracked, 0, sizeof tracked);
  on = true;
}
__attribute__((visibility("default"))) void sysshim_disable() { on = false; }
// an event decided by the scheduler that is not a system call (network); returns action*2^32 + value
__attribute__((visibility("default"))) int64_t sysshim_event(const char *op, const char *what, int64_t n) {
  if (!on) return 0;
  Rep r = ask(op, what, n);
  if (r.act == CRASH_AFTER) die();
  return (r.act << 32) | (uint32_t)r.val;
}

static int open_common(const char *op, int dirfd, const char *path, int flags, mode_t mode) {
  char b[400];
  if (!under(dirfd, path, b)) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
  bool create = flags & (O_CREAT | O_TRUNC | O_TMPFILE & ~O_DIRECTORY);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || create;
  PRE(flags & O_EXCL ? "openx" : create ? "creat" : wr ? "openw" : "openr", b, flags & O_TRUNC ? 1 : 0)
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < 4096) tracked[fd] = true;
  if (fd >= 0 && create) stamp(fd);
  return finish(r, fd);
}
int open64(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = va_arg(a, mode_t);
  va_end(a);
  return open_common("open", AT_FDCWD, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = va_arg(a, mode_t);
  va_end(a);
  return open_common("open", d, p, flags, m);
}
int __open64_2(const char *p, int flags) { return open_common("open", AT_FDCWD, p, flags, 0); }
int close(int fd) {
  if (!fdt(fd)) return (int)syscall(SYS_close, fd);
  Rep r = ask("close", "", 0);
  tracked[fd] = false;
  int k = (int)syscall(SYS_close, fd);
  if (r.act == FAIL) {
    errno = (int)r.val;
    k = -1;
  }
  return finish(r, k);
}
static int stat_common(int dirfd, const char *path, struct stat64 *st, int flags) {
  char b[400];
  if (!under(dirfd, path, b)) return (int)syscall(SYS_newfstatat, dirfd, path, st, flags);
  PRE("stat", b, 0)
  return finish(r, (int)syscall(SYS_newfstatat, dirfd, path, st, flags));
}
int stat64(const char *p, struct stat64 *st) { return stat_common(AT_FDCWD, p, st, 0); }
int lstat64(const char *p, struct stat64 *st) { return stat_common(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return stat_common(d, p, st, f); }
int access(const char *p, int m) {
  char b[400];
  if (!under(AT_FDCWD, p, b)) return (int)syscall(SYS_access, p, m);
  PRE("stat", b, 0)
  return finish(r, (int)syscall(SYS_access, p, m));
}
int mkdirat(int d, const char *p, mode_t m) {
  char b[400];
  if (!under(d, p, b)) return (int)syscall(SYS_mkdirat, d, p, m);
  PRE("mkdir", b, 0)
  return finish(r, (int)syscall(SYS_mkdirat, d, p, m));
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
ssize_t write(int fd, const void *b, size_t n) {
  if (!fdt(fd)) return syscall(SYS_write, fd, b, n);
  PRE("write", "", (int64_t)n)
  if ((r.act == SHORT || r.act == TORN) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = syscall(SYS_write, fd, b, n);
  stamp(fd);
  return finish(r, k);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!fdt(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  PRE("write", "", (int64_t)n)
  if ((r.act == SHORT || r.act == TORN) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = syscall(SYS_pwrite64, fd, b, n, o);
  stamp(fd);
  return finish(r, k);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!fdt(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (!fdt(o)) return syscall(SYS_sendfile, o, i, off, n);
  if (n > 16384) n = 16384;
  PRE("write", "", (int64_t)n)
  if ((r.act == SHORT || r.act == TORN) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = syscall(SYS_sendfile, o, i, off, n);
  stamp(o);
  return finish(r, k);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (!fdt(o)) return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
  if (n > 16384) n = 16384;
  PRE("write", "", (int64_t)n)
  if ((r.act == SHORT || r.act == TORN) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = syscall(SYS_copy_file_range, i, io, o, oo, n, f);
  stamp(o);
  return finish(r, k);
}
static int two(const char *op, int d1, const char *a, int d2, const char *c, int (*go)(int, const char *, int, const char *)) {
  char b1[400], b2[400];
  bool u1 = under(d1, a, b1), u2 = under(d2, c, b2);
  if (!u1 && !u2) return go(d1, a, d2, c);
  char both[400];
  snprintf(both, sizeof both, "%.190s>%.190s", u1 ? b1 : a, u2 ? b2 : c);
  PRE(op, both, 0)
  return finish(r, go(d1, a, d2, c));
}
static int go_rename(int a, const char *p, int b, const char *q) { return (int)syscall(SYS_renameat, a, p, b, q); }
static int go_link(int a, const char *p, int b, const char *q) { return (int)syscall(SYS_linkat, a, p, b, q, 0); }
static int go_symlink(int, const char *p, int b, const char *q) { return (int)syscall(SYS_symlinkat, p, b, q); }
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, go_rename); }
int renameat(int x, const char *a, int y, const char *b) { return two("rename", x, a, y, b, go_rename); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, go_link); }
int linkat(int x, const char *a, int y, const char *b, int) { return two("link", x, a, y, b, go_link); }
int symlink(const char *a, const char *b) { return two("symlink", AT_FDCWD, a, AT_FDCWD, b, go_symlink); }
int symlinkat(const char *a, int y, const char *b) { return two("symlink", AT_FDCWD, a, y, b, go_symlink); }
int unlinkat(int d, const char *p, int f) {
  char b[400];
  if (!under(d, p, b)) return (int)syscall(SYS_unlinkat, d, p, f);
  PRE(f & AT_REMOVEDIR ? "rmdir" : "unlink", b, 0)
  return finish(r, (int)syscall(SYS_unlinkat, d, p, f));
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int ftruncate64(int fd, off64_t n) {
  if (!fdt(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  PRE("trunc", "", n)
  return finish(r, (int)syscall(SYS_ftruncate, fd, n));
}
int truncate64(const char *p, off64_t n) {
  char b[400];
  if (!under(AT_FDCWD, p, b)) return (int)syscall(SYS_truncate, p, n);
  PRE("trunc", b, n)
  return finish(r, (int)syscall(SYS_truncate, p, n));
}
int fsync(int fd) {
  if (!fdt(fd)) return (int)syscall(SYS_fsync, fd);
  PRE("fsync", "", 0)
  return finish(r, 0);
}
int fdatasync(int fd) {
  if (!fdt(fd)) return (int)syscall(SYS_fdatasync, fd);
  PRE("fsync", "", 0)
  return finish(r, 0);
}
int flock(int fd, int op) {
  if (!fdt(fd)) return (int)syscall(SYS_flock, fd, op);
  for (;;) {
    PRE("flock", "", op)
    int k = (int)syscall(SYS_flock, fd, op | LOCK_NB);
    if (k == 0 || (op & LOCK_NB) || errno != EWOULDBLOCK) return finish(r, k);
    ask("blocked", "", 0);
  }
}
int fcntl64(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  void *arg = va_arg(a, void *);
  va_end(a);
  if (fdt(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLK)) {
    bool wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW;
    int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    for (;;) {
      PRE("flock", "", cmd)
      int k = (int)syscall(SYS_fcntl, fd, nb, arg);
      if (k == 0 || !wait || (errno != EAGAIN && errno != EACCES)) return finish(r, k);
      ask("blocked", "", 0);
    }
  }
  int k = (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (k >= 0 && k < 4096 && fdt(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) tracked[k] = true;
  return k;
}
int lockf64(int fd, int cmd, off64_t len) {
  if (!fdt(fd)) {
    static int (*f)(int, int, off64_t);
    return real(f, "lockf64")(fd, cmd, len);
  }
  struct flock fl;
  memset(&fl, 0, sizeof fl);
  fl.l_whence = SEEK_CUR;
  fl.l_len = len;
  fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return fcntl64(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
int dup(int fd) {
  int k = (int)syscall(SYS_dup, fd);
  if (k >= 0 && k < 4096) tracked[k] = fdt(fd);
  return k;
}
pid_t getpid() { return on ? spid : (pid_t)syscall(SYS_getpid); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!on) return syscall(SYS_getrandom, b, n, f);
  unsigned char *p = (unsigned char *)b;
  for (size_t i = 0; i < n; i++) {
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    p[i] = (unsigned char)(rnd >> 24);
  }
  return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on) return (int)syscall(SYS_clock_gettime, c, t);
  now_ns += 1000;
  t->tv_sec = now_ns / 1000000000;
  t->tv_nsec = now_ns % 1000000000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *q, struct timespec *rem) {
  if (!on) {
    static int (*fn)(clockid_t, int, const struct timespec *, struct timespec *);
    return real(fn, "clock_nanosleep")(c, f, q, rem);
  }
  int64_t d = (int64_t)q->tv_sec * 1000000000 + q->tv_nsec;
  if (f & TIMER_ABSTIME) d -= now_ns;
  ask("sleep", "", d > 0 ? d : 0);
  return 0;
}
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) {
  if (on && n == 0 && t) {
    ask("sleep", "", (int64_t)t->tv_sec * 1000000000 + t->tv_usec * 1000);
    return 0;
  }
  static int (*fn)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
  return real(fn, "select")(n, a, b, c, t);
}
}
