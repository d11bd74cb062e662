/* LD_PRELOAD seam for the Python side: every file-system call on a watched path, plus explicit
 * sim_yield() points of the simulated process pool, stops here and waits for the scheduler's verdict.
 *
 * Environment:  SIM_SOCK  path of the scheduler's SOCK_SEQPACKET socket
 *               SIM_PID   simulated process name of the initial process
 *               SIM_WATCH ':'-separated absolute path prefixes
 * Protocol (one packet each way):   request  "<op>\t<path>\t<n>"
 *   reply  'G'        go on               'E<errno>' fail with errno
 *          'S<n>'     write only n bytes (short write)
 *          'T<n>'     write n bytes, then the process dies (torn write)
 *          'K'        the process dies before the call
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

#define MAXFD 4096
static char fdpath[MAXFD][512];
static int ctl = -1, connected_pid = -1, enabled = 0;
static char watch[8][400];
static int nwatch = 0;
static char sockpath[200];

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void die_now(void) { syscall(SYS_exit_group, 137); }

static void do_connect(const char *name) {
  struct sockaddr_un a; memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, sockpath, sizeof a.sun_path - 1);
  int s = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
  if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a) != 0) { enabled = 0; return; }
  int hi = fcntl(s, F_DUPFD_CLOEXEC, 900);
  if (hi >= 0) { syscall(SYS_close, s); s = hi; }
  ctl = s; connected_pid = getpid(); enabled = 1;
  char buf[300]; int n = snprintf(buf, sizeof buf, "HELLO\t%s\t%d", name, (int)getpid());
  if (send(ctl, buf, n, MSG_NOSIGNAL) != n) die_now();
  char rep[64]; n = recv(ctl, rep, sizeof rep - 1, 0);
  if (n <= 0) die_now();
}

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("SIM_SOCK"), *p = getenv("SIM_PID"), *w = getenv("SIM_WATCH");
  if (!s || !p || !w || !*p) return;
  strncpy(sockpath, s, sizeof sockpath - 1);
  char tmp[4000]; strncpy(tmp, w, sizeof tmp - 1); tmp[sizeof tmp - 1] = 0;
  for (char *t = strtok(tmp, ":"); t && nwatch < 8; t = strtok(NULL, ":")) strncpy(watch[nwatch++], t, 399);
  char name[100]; strncpy(name, p, 99); name[99] = 0;
  unsetenv("SIM_PID"); /* children that exec are outside the simulation */
  do_connect(name);
}

/* ---- verdicts ---- */
static int ask(const char *op, const char *path, long n, char *rep, int repn) {
  char buf[900];
  int k = snprintf(buf, sizeof buf, "%s\t%s\t%ld", op, path, n);
  if (k >= (int)sizeof buf) k = sizeof buf - 1;
  if (send(ctl, buf, k, MSG_NOSIGNAL) != k) die_now();
  k = recv(ctl, rep, repn - 1, 0);
  if (k <= 0) die_now();
  rep[k] = 0;
  if (rep[0] == 'K') die_now();
  return rep[0];
}
static int active(void) { return enabled && ctl >= 0 && getpid() == connected_pid; }

static int absolutise(int dirfd, const char *path, char *out, size_t n) {
  if (!path) return 0;
  if (path[0] == '/') { snprintf(out, n, "%s", path); }
  else if (dirfd == AT_FDCWD) {
    char cwd[400]; if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(out, n, "%s/%s", cwd, path);
  } else {
    char lk[64], d[400]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd);
    ssize_t k = readlink(lk, d, sizeof d - 1); if (k <= 0) return 0; d[k] = 0;
    snprintf(out, n, "%s/%s", d, path);
  }
  return 1;
}
static int watched(int dirfd, const char *path, char *out, size_t n) {
  if (!active()) return 0;
  if (!absolutise(dirfd, path, out, n)) return 0;
  for (int i = 0; i < nwatch; i++) if (!strncmp(out, watch[i], strlen(watch[i]))) return 1;
  return 0;
}
/* returns 1 when the call must fail (errno set) */
static int gate(const char *op, const char *path, long n) {
  char rep[64];
  if (ask(op, path, n, rep, sizeof rep) == 'E') { errno = atoi(rep + 1); return 1; }
  return 0;
}

/* exported for the simulated pool */
__attribute__((visibility("default"))) int sim_active(void) { return active(); }
__attribute__((visibility("default"))) int sim_call(const char *op, const char *path, long n, char *rep, int repn) {
  if (!active()) { rep[0] = 'G'; rep[1] = 0; return 0; }
  ask(op, path, n, rep, repn);
  return 1;
}
__attribute__((visibility("default"))) void sim_adopt(const char *name) { if (ctl >= 0) syscall(SYS_close, ctl); ctl = -1; memset(fdpath, 0, sizeof fdpath); do_connect(name); }
__attribute__((visibility("default"))) void sim_off(void) { enabled = 0; }

/* ---- interposed calls ---- */
static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
  char ap[900];
  int w = watched(dirfd, path, ap, sizeof ap);
  if (w) {
    const char *op = (flags & O_ACCMODE) == O_RDONLY ? "openr" : (flags & O_TRUNC) ? "opentrunc" : (flags & O_APPEND) ? "openappend" : "openw";
    if (flags & O_DIRECTORY) op = "opendir";
    if (gate(op, ap, 0)) return -1;
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) { if (w) strncpy(fdpath[fd], ap, sizeof fdpath[fd] - 1); else fdpath[fd][0] = 0; }
  return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap_; va_start(ap_, flags); mode = va_arg(ap_, int); va_end(ap_); }
int open(const char *path, int flags, ...) { GETMODE return open_common(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return open_common(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return open_common(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return open_common(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
FILE *fopen64(const char *p, const char *m);

static int fdw(int fd) { return active() && fd >= 0 && fd < MAXFD && fdpath[fd][0]; }

ssize_t write(int fd, const void *b, size_t n) {
  if (!fdw(fd)) return syscall(SYS_write, fd, b, n);
  char rep[64]; int v = ask("write", fdpath[fd], (long)n, rep, sizeof rep);
  if (v == 'E') { errno = atoi(rep + 1); return -1; }
  if (v == 'S' || v == 'T') {
    size_t k = strtoul(rep + 1, NULL, 10); if (k > n) k = n;
    ssize_t r = k ? syscall(SYS_write, fd, b, k) : 0;
    if (v == 'T') die_now();
    return r;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) { if (fdw(fd) && gate("write", fdpath[fd], -1)) return -1; return syscall(SYS_writev, fd, v, c); }
ssize_t read(int fd, void *b, size_t n) { if (fdw(fd) && gate("read", fdpath[fd], (long)n)) return -1; return syscall(SYS_read, fd, b, n); }
int close(int fd) {
  if (fdw(fd)) {
    char p[512]; strcpy(p, fdpath[fd]); fdpath[fd][0] = 0;
    int bad = gate("close", p, 0);
    int e = errno; int r = syscall(SYS_close, fd);
    if (bad) { errno = e; return -1; }
    return r;
  }
  if (fd == ctl && ctl >= 0 && active()) return 0; /* never let bulk closers shut the control channel */
  return syscall(SYS_close, fd);
}
int fsync(int fd) { if (fdw(fd) && gate("fsync", fdpath[fd], 0)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (fdw(fd) && gate("fsync", fdpath[fd], 0)) return -1; return syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) { if (fdw(fd) && gate("ftruncate", fdpath[fd], n)) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (fdw(o) && gate("write", fdpath[o], (long)n)) return -1; return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { if (fdw(o) && gate("write", fdpath[o], (long)n)) return -1; return syscall(SYS_copy_file_range, i, oi, o, oo, n, f); }

#define ONE(op, dirfd, path) char ap[900]; if (watched(dirfd, path, ap, sizeof ap) && gate(op, ap, 0)) return -1;
int renameat(int d1, const char *a, int d2, const char *b) { ONE("rename", d2, b) return syscall(SYS_renameat, d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { ONE("rename", d2, b) return syscall(SYS_renameat2, d1, a, d2, b, f); }
int rename(const char *a, const char *b) { ONE("rename", AT_FDCWD, b) return syscall(SYS_rename, a, b); }
int unlink(const char *a) { ONE("unlink", AT_FDCWD, a) return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { ONE("unlink", d, a) return syscall(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { ONE("rmdir", AT_FDCWD, a) return syscall(SYS_rmdir, a); }
int mkdir(const char *a, mode_t m) { ONE("mkdir", AT_FDCWD, a) return syscall(SYS_mkdir, a, m); }
int mkdirat(int d, const char *a, mode_t m) { ONE("mkdir", d, a) return syscall(SYS_mkdirat, d, a, m); }
int link(const char *a, const char *b) { ONE("link", AT_FDCWD, b) return syscall(SYS_link, a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { ONE("link", d2, b) return syscall(SYS_linkat, d1, a, d2, b, f); }
int symlink(const char *a, const char *b) { ONE("link", AT_FDCWD, b) return syscall(SYS_symlink, a, b); }
int stat(const char *p, struct stat *s) { ONE("stat", AT_FDCWD, p) return syscall(SYS_stat, p, s); }
int stat64(const char *p, struct stat64 *s) { ONE("stat", AT_FDCWD, p) return syscall(SYS_stat, p, s); }
int lstat(const char *p, struct stat *s) { ONE("stat", AT_FDCWD, p) return syscall(SYS_lstat, p, s); }
int lstat64(const char *p, struct stat64 *s) { ONE("stat", AT_FDCWD, p) return syscall(SYS_lstat, p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { ONE("stat", d, p) return syscall(SYS_newfstatat, d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { ONE("stat", d, p) return syscall(SYS_newfstatat, d, p, s, f); }
int access(const char *p, int m) { ONE("stat", AT_FDCWD, p) return syscall(SYS_access, p, m); }
int faccessat(int d, const char *p, int m, int f) { ONE("stat", d, p) REAL(faccessat); return real(d, p, m, f); }

/* ---- clock (only where SIM_CLOCK is set: "<start seconds> <step seconds per reading>") ---- */
#include <time.h>
#include <sys/time.h>
static int clk = -1;
static long long clk_ns, clk_step;
static int clk_on(void) {
  if (clk < 0) {
    const char *e = getenv("SIM_CLOCK");
    double a, b;
    clk = e && sscanf(e, "%lf %lf", &a, &b) == 2;
    if (clk) { clk_ns = (long long)a * 1000000000LL; clk_step = (long long)(b * 1e9); }
  }
  return clk;
}
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!clk_on() || id != CLOCK_REALTIME) return syscall(SYS_clock_gettime, id, t);
  clk_ns += clk_step;
  if (clk_ns < 0) clk_ns = 0;
  t->tv_sec = clk_ns / 1000000000LL; t->tv_nsec = clk_ns % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *z) {
  struct timespec t; (void)z;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *p) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
