/* File operations of a daemon under test, seen before and after they happen.
 *
 * Preloaded into a process. Paths below the base folder (IP_BASE) are reported; operations that would change anything
 * elsewhere (other than what IP_ALLOW lists, separated by ':') are refused with EACCES and reported as escapes.
 * In the simulator a callback decides about each operation; in the real daemon the environment does:
 *   IP_LOG   file to which each operation is appended (before it happens)
 *   IP_CRASH n: the process is killed at the n-th operation; IP_CRASH_HALF: after half of it, if it is a write
 *   IP_PLAN  file read before each operation, with lines "<substring of the path> <operation or *> <errno>"
 *   IP_PORT  connections to and from port 7687 use this port of the loopback interface instead
 *   IP_SPEED how many times faster than it does the time passes for the process
 *   IP_GATE  folder: before each operation below the base the process waits while <folder>/hold exists
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { BEFORE, MIDDLE, AFTER };
/* returns: 0 go on, >0 fail with that errno, -1 pretend it was done */
typedef int (*hook_t)(int phase, const char *op, const char *path, const char *path2);
static hook_t hook;
static char base[PATH_MAX];
static char allow[PATH_MAX];
static int ready, count, crash_at = -1, crash_half, logfd = -1;
static const char *plan, *gatedir;
static __thread int inside;
static char *fds[65536];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

void ip_set_hook(hook_t h, const char *b) {
  hook = h;
  snprintf(base, sizeof base, "%s", b);
  ready = 1;
}
static void init(void) {
  if (ready) return;
  ready = 1;
  const char *b = getenv("IP_BASE");
  if (b) snprintf(base, sizeof base, "%s", b);
  const char *a = getenv("IP_ALLOW");
  if (a) snprintf(allow, sizeof allow, "%s", a);
  const char *c = getenv("IP_CRASH");
  if (c) crash_at = atoi(c);
  crash_half = getenv("IP_CRASH_HALF") != NULL;
  plan = getenv("IP_PLAN");
  gatedir = getenv("IP_GATE");
  const char *l = getenv("IP_LOG");
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

/* an absolute path without . and .. and doubled slashes (links are resolved for the folder part) */
static void norm(int dirfd, const char *p, char *out) {
  char tmp[PATH_MAX * 2];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else {
    char cwd[PATH_MAX] = "/";
    if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "/"); }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(l, cwd, sizeof cwd - 1); if (n > 0) cwd[n] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
  }
  size_t o = 0;
  char *save = NULL;
  for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o > 0 && out[--o] != '/') ; continue; }
    size_t l = strlen(t);
    if (o + l + 2 >= PATH_MAX) break;
    out[o++] = '/'; memcpy(out + o, t, l); o += l;
  }
  if (o == 0) out[o++] = '/';
  out[o] = 0;
}
static int below(const char *p, const char *d) {
  size_t n = strlen(d);
  while (n > 1 && d[n - 1] == '/') n--;
  return n > 0 && !strncmp(p, d, n) && (p[n] == 0 || p[n] == '/');
}
static int allowed(const char *p) {
  if (below(p, "/dev") || below(p, "/proc/self")) return 1;
  char a[PATH_MAX]; snprintf(a, sizeof a, "%s", allow);
  char *save = NULL;
  for (char *t = strtok_r(a, ":", &save); t; t = strtok_r(NULL, ":", &save)) if (below(p, t)) return 1;
  return 0;
}
static void say(const char *op, const char *p, const char *q, const char *what) {
  if (logfd < 0) return;
  char b[PATH_MAX * 2 + 64];
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  int n = snprintf(b, sizeof b, "%ld.%09ld %s %s %s %s\n", (long)t.tv_sec, t.tv_nsec, what, op, p, q ? q : "");
  syscall(SYS_write, logfd, b, n);
}
static int planned(const char *op, const char *p, const char *q) {
  if (!plan) return 0;
  char b[4096];
  int fd = syscall(SYS_openat, AT_FDCWD, plan, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1);
  syscall(SYS_close, fd);
  if (n <= 0) return 0;
  b[n] = 0;
  char *save = NULL;
  for (char *l = strtok_r(b, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
    char sub[2048], o[64]; int e;
    if (sscanf(l, "%2047s %63s %d", sub, o, &e) == 3 && (strstr(p, sub) || (q && strstr(q, sub))) && ((!strcmp(o, "*") && strcmp(op, "look") && strcmp(op, "read") && strcmp(op, "stat")) || !strcmp(o, op))) return e;
  }
  return 0;
}
/* 0 go on, else as the hook */
static int before(const char *op, const char *p, const char *q) {
  init();
  if (inside || !base[0]) return 0;
  int in = below(p, base) && strlen(p) > strlen(base), inq = !q || (below(q, base) && strlen(q) > strlen(base));
  if (!strcmp(op, "mkdir") && below(base, p)) return 0; /* making the base folder itself */
  if (!strcmp(op, "mkdir") && below(p, base)) in = 1;
  if (!(in && inq)) {
    if (allowed(p) && (!q || allowed(q))) return 0;
    inside = 1;
    say(op, p, q, "ESCAPE");
    int r = hook ? hook(BEFORE, "escape", p, q ? q : "") : 0;
    inside = 0;
    (void)r;
    return EACCES;
  }
  inside = 1;
  int r = 0;
  if (hook) r = hook(BEFORE, op, p, q ? q : "");
  else {
    if (gatedir) {
      char g[PATH_MAX]; snprintf(g, sizeof g, "%s/hold", gatedir);
      char w[PATH_MAX]; snprintf(w, sizeof w, "%s/waiting", gatedir);
      if (syscall(SYS_faccessat, AT_FDCWD, g, F_OK) == 0) {
        int fd = syscall(SYS_openat, AT_FDCWD, w, O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
        if (fd >= 0) syscall(SYS_close, fd);
        struct timespec t = {0, 2000000};
        while (syscall(SYS_faccessat, AT_FDCWD, g, F_OK) == 0) nanosleep(&t, NULL);
      }
    }
    pthread_mutex_lock(&mu);
    int n = ++count;
    pthread_mutex_unlock(&mu);
    r = planned(op, p, q);
    say(op, p, q, r ? "fail" : "op");
    if (n == crash_at && !(crash_half && !strcmp(op, "write"))) { syscall(SYS_kill, getpid(), SIGKILL); }
    if (n == crash_at) r = -2;
  }
  inside = 0;
  return r;
}
static void done(int phase, const char *op, const char *p, const char *q) {
  if (inside || !hook) return;
  inside = 1;
  hook(phase, op, p, q ? q : "");
  inside = 0;
}
#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int mutating(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
/* reading is not reported, but it may fail */
static char *rfds[65536];
static int unreadable(const char *op, const char *p) {
  if (inside) return 0;
  inside = 1;
  int r = hook ? hook(BEFORE, op, p, "") : planned(op, p, NULL);
  inside = 0;
  return r > 0 ? r : 0;
}
static int open_to_read(int dirfd, const char *path, int flags, mode_t mode) {
  init();
  char p[PATH_MAX];
  int ours = 0;
  if (base[0] && !inside && !(flags & (O_DIRECTORY | O_PATH))) {
    norm(dirfd, path, p);
    ours = below(p, base) && strlen(p) > strlen(base);
    int r = ours ? unreadable("look", p) : 0;
    if (r) { errno = r; return -1; }
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (ours && fd >= 0 && fd < 65536) { free(rfds[fd]); rfds[fd] = strdup(p); }
  return fd;
}
static int bad_read(int fd) {
  if (fd < 0 || fd >= 65536 || inside || !rfds[fd]) return 0;
  return unreadable("read", rfds[fd]);
}
ssize_t read(int fd, void *b, size_t n) { int r = bad_read(fd); if (r) { errno = r; return -1; } return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t at) { int r = bad_read(fd); if (r) { errno = r; return -1; } return syscall(SYS_pread64, fd, b, n, at); }
ssize_t pread(int fd, void *b, size_t n, off_t at) { return pread64(fd, b, n, at); }
ssize_t readv(int fd, const struct iovec *v, int c) { int r = bad_read(fd); if (r) { errno = r; return -1; } return syscall(SYS_readv, fd, v, c); }
/* asking about a file that cannot be reached fails as well */
static int hidden(int dirfd, const char *path) {
  init();
  if (!base[0] || inside || !path || !path[0]) return 0;
  char p[PATH_MAX];
  norm(dirfd, path, p);
  int r = below(p, base) && strlen(p) > strlen(base) ? unreadable("stat", p) : 0;
  if (r) errno = r;
  return r;
}
int fstatat(int d, const char *restrict a, struct stat *restrict st, int f) { return hidden(d, a) ? -1 : syscall(SYS_newfstatat, d, a, st, f); }
int stat(const char *restrict a, struct stat *restrict st) { return fstatat(AT_FDCWD, a, st, 0); }
int lstat(const char *restrict a, struct stat *restrict st) { return fstatat(AT_FDCWD, a, st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *restrict a, struct stat64 *restrict st, int f) { return fstatat(d, a, (struct stat *)st, f); }
int stat64(const char *restrict a, struct stat64 *restrict st) { return fstatat(AT_FDCWD, a, (struct stat *)st, 0); }
int lstat64(const char *restrict a, struct stat64 *restrict st) { return fstatat(AT_FDCWD, a, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *restrict a, int f, unsigned m, struct statx *restrict st) { return hidden(d, a) ? -1 : syscall(SYS_statx, d, a, f, m, st); }
int access(const char *a, int m) { return hidden(AT_FDCWD, a) ? -1 : syscall(SYS_faccessat, AT_FDCWD, a, m); }
int faccessat(int d, const char *a, int m, int f) { return hidden(d, a) ? -1 : syscall(SYS_faccessat2, d, a, m, f); }
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!mutating(flags)) return open_to_read(dirfd, path, flags, mode);
  char p[PATH_MAX]; norm(dirfd, path, p);
  int ours = base[0] && below(p, base) && !inside;
  int r = before((flags & O_TRUNC) || (flags & O_CREAT) ? "create" : "open", p, NULL);
  if (r > 0) { errno = r; return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < 65536) {
    free(fds[fd]); fds[fd] = (ours || (base[0] && below(p, base))) ? strdup(p) : NULL;
  }
  int e = errno;
  if (fd >= 0 && fds[fd]) done(AFTER, "create", p, NULL);
  errno = e;
  return fd;
}
int open(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, m); }

static const char *ofd(int fd) { return fd >= 0 && fd < 65536 && !inside ? fds[fd] : NULL; }
static ssize_t pushed(int fd, const void *b, size_t n, off64_t at) {
  return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t at) {
  const char *p = ofd(fd);
  if (!p) return pushed(fd, b, n, at);
  char q[PATH_MAX]; snprintf(q, sizeof q, "%s", p);
  int r = before("write", q, NULL);
  if (r > 0) {
    /* a full disk takes some of it first */
    if (r == ENOSPC && n > 1) { ssize_t k = pushed(fd, b, n / 2, at); if (k > 0) { done(AFTER, "write", q, NULL); } }
    errno = r; return -1;
  }
  if (n > 1) {
    ssize_t k = pushed(fd, b, n / 2, at);
    if (r == -2) syscall(SYS_kill, getpid(), SIGKILL);
    if (k < 0) return k;
    done(MIDDLE, "write", q, NULL);
    ssize_t l = pushed(fd, (const char *)b + k, n - k, at < 0 ? at : at + k);
    if (l < 0) return k;
    done(AFTER, "write", q, NULL);
    return k + l;
  }
  ssize_t k = pushed(fd, b, n, at);
  done(AFTER, "write", q, NULL);
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return do_write(fd, b, n, at); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) { return do_write(fd, b, n, at); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  const char *p = ofd(fd);
  if (!p) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
/* copying inside the kernel is refused, so that the library falls back to reading and writing */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (ofd(b)) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (ofd(o)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
static int on_fd(int fd, const char *op, long nr, long arg) {
  const char *p = ofd(fd);
  if (!p) return syscall(nr, fd, arg);
  char q[PATH_MAX]; snprintf(q, sizeof q, "%s", p);
  int r = before(op, q, NULL);
  if (r > 0) { errno = r; return -1; }
  int k = r == -1 ? 0 : syscall(nr, fd, arg);
  int e = errno; done(AFTER, op, q, NULL); errno = e;
  return k;
}
int fsync(int fd) { return on_fd(fd, "sync", SYS_fsync, 0); }
int fdatasync(int fd) { return on_fd(fd, "sync", SYS_fdatasync, 0); }
int ftruncate(int fd, off_t n) { return on_fd(fd, "truncate", SYS_ftruncate, n); }
int ftruncate64(int fd, off64_t n) { return on_fd(fd, "truncate", SYS_ftruncate, n); }
int close(int fd) { if (fd >= 0 && fd < 65536 && fds[fd] && !inside) { free(fds[fd]); fds[fd] = NULL; } if (fd >= 0 && fd < 65536 && rfds[fd] && !inside) { free(rfds[fd]); rfds[fd] = NULL; } return syscall(SYS_close, fd); }

static int on_path(const char *op, int d, const char *path, int d2, const char *path2, long nr, long a, long b, long c, long e5) {
  char p[PATH_MAX], q[PATH_MAX];
  norm(d, path, p);
  if (path2) norm(d2, path2, q);
  int r = before(op, p, path2 ? q : NULL);
  if (r > 0) { errno = r; return -1; }
  int k = syscall(nr, a, b, c, e5, 0L);
  int e = errno;
  if (k == 0) {
    if (base[0] && (below(p, base))) done(AFTER, op, p, path2 ? q : NULL);
    if (!strcmp(op, "rename")) for (int i = 0; i < 65536; i++) if (fds[i] && !strcmp(fds[i], p)) { free(fds[i]); fds[i] = strdup(q); }
  }
  errno = e;
  return k;
}
int rename(const char *a, const char *b) { return on_path("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat, AT_FDCWD, (long)a, AT_FDCWD, (long)b); }
int renameat(int d, const char *a, int e, const char *b) { return on_path("rename", d, a, e, b, SYS_renameat, d, (long)a, e, (long)b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
  char p[PATH_MAX], q[PATH_MAX]; norm(d, a, p); norm(e, b, q);
  int r = before("rename", p, q);
  if (r > 0) { errno = r; return -1; }
  int k = syscall(SYS_renameat2, d, a, e, b, f);
  if (k == 0) done(AFTER, "rename", p, q);
  return k;
}
int unlink(const char *a) { return on_path("unlink", AT_FDCWD, a, 0, NULL, SYS_unlinkat, AT_FDCWD, (long)a, 0, 0); }
int unlinkat(int d, const char *a, int f) { return on_path(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, a, 0, NULL, SYS_unlinkat, d, (long)a, f, 0); }
int rmdir(const char *a) { return on_path("rmdir", AT_FDCWD, a, 0, NULL, SYS_unlinkat, AT_FDCWD, (long)a, AT_REMOVEDIR, 0); }
int remove(const char *a) { int r = unlink(a); return r < 0 && errno == EISDIR ? rmdir(a) : r; }
int mkdir(const char *a, mode_t m) {
  struct stat st;
  /* already there: nothing changes */
  if (stat(a, &st) == 0) { errno = EEXIST; return -1; }
  return on_path("mkdir", AT_FDCWD, a, 0, NULL, SYS_mkdirat, AT_FDCWD, (long)a, m, 0);
}
int mkdirat(int d, const char *a, mode_t m) { return on_path("mkdir", d, a, 0, NULL, SYS_mkdirat, d, (long)a, m, 0); }
int link(const char *a, const char *b) { return on_path("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b); }
int linkat(int d, const char *a, int e, const char *b, int f) { return on_path("link", d, a, e, b, SYS_linkat, d, (long)a, e, (long)b); }
int symlink(const char *a, const char *b) { return on_path("symlink", AT_FDCWD, b, 0, NULL, SYS_symlinkat, (long)a, AT_FDCWD, (long)b, 0); }
int symlinkat(const char *a, int d, const char *b) { return on_path("symlink", d, b, 0, NULL, SYS_symlinkat, (long)a, d, (long)b, 0); }
int truncate(const char *a, off_t n) {
  char p[PATH_MAX]; norm(AT_FDCWD, a, p);
  int r = before("truncate", p, NULL);
  if (r > 0) { errno = r; return -1; }
  int k = syscall(SYS_truncate, a, n);
  if (k == 0) done(AFTER, "truncate", p, NULL);
  return k;
}
int chmod(const char *a, mode_t m) { return on_path("chmod", AT_FDCWD, a, 0, NULL, SYS_fchmodat, AT_FDCWD, (long)a, m, 0); }
int chown(const char *a, uid_t u, gid_t g) { (void)u; (void)g; char p[PATH_MAX]; norm(AT_FDCWD, a, p); if (base[0] && !below(p, base)) { before("chown", p, NULL); errno = EACCES; return -1; } return syscall(SYS_fchownat, AT_FDCWD, a, u, g, 0); }

/* ------------------------------------------------------------ ports and time */
static int env_int(const char *n) { const char *v = getenv(n); return v ? atoi(v) : 0; }
static int moved(const struct sockaddr *a, socklen_t l, struct sockaddr_in *o) {
  static int port = -1;
  if (port < 0) port = env_int("IP_PORT");
  if (!port || !a) return 0;
  if (a->sa_family == AF_INET && l >= sizeof *o && ntohs(((const struct sockaddr_in *)a)->sin_port) == 7687) {
    *o = *(const struct sockaddr_in *)a;
    o->sin_port = htons(port);
    o->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return 1;
  }
  return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  struct sockaddr_in o;
  return moved(a, l, &o) ? syscall(SYS_bind, fd, &o, sizeof o) : syscall(SYS_bind, fd, a, l);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  struct sockaddr_in o;
  return moved(a, l, &o) ? syscall(SYS_connect, fd, &o, sizeof o) : syscall(SYS_connect, fd, a, l);
}
static int speed(void) {
  static int s = -1;
  if (s < 0) { int v = env_int("IP_SPEED"); s = v < 1 ? 1 : v; }
  return s;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  static long long start = -1;
  int r = syscall(SYS_clock_gettime, c, t);
  if (r || c != CLOCK_MONOTONIC || speed() == 1) return r;
  long long n = t->tv_sec * 1000000000LL + t->tv_nsec;
  long long none = -1;
  __atomic_compare_exchange_n(&start, &none, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  n = start + (n - start) * speed();
  t->tv_sec = n / 1000000000LL;
  t->tv_nsec = n % 1000000000LL;
  return 0;
}
static int sooner(int ms) { return ms <= 0 ? ms : (ms + speed() - 1) / speed(); }
int epoll_wait(int e, struct epoll_event *v, int n, int ms) { return epoll_pwait(e, v, n, ms, NULL); }
int epoll_pwait(int e, struct epoll_event *v, int n, int ms, const sigset_t *m) { return syscall(SYS_epoll_pwait, e, v, n, sooner(ms), m, 8); }
