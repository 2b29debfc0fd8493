// Preloaded into podo by the checks: a chosen clock, a chosen order of directory listings,
// a fault at a chosen file operation, and a trace of the files used. Linked to nothing but libc.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int ready, tracefd = -1, fault_k = -1, count;
static char kind;            // b kill before, a kill after, e error, r error of a reading operation, s short write then error, t short write then kill
static int fault_errno = EIO;
static long long fixed_clock = -1;
static int order = -1;
static char root[PATH_MAX];
static char watched[4096];   // fds of files below the root, opened for writing

static void init(void) {
  if (ready) return;
  ready = 1;
  char *s = getenv("PODO_SHIM_ROOT");
  if (s) snprintf(root, sizeof root, "%s", s);
  if ((s = getenv("PODO_SHIM_CLOCK"))) fixed_clock = atoll(s);
  if ((s = getenv("PODO_SHIM_ORDER"))) order = atoi(s);
  if ((s = getenv("PODO_SHIM_FAULT"))) {  // <k>:<kind>:<errno>
    char k; int n, e = EIO;
    if (sscanf(s, "%d:%c:%d", &n, &k, &e) >= 2) { fault_k = n; kind = k; fault_errno = e; }
  }
  if ((s = getenv("PODO_SHIM_TRACE")))
    tracefd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
__attribute__((constructor)) static void start(void) { init(); }

static void trace(const char *what, const char *path) {
  if (tracefd < 0) return;
  char b[PATH_MAX + 64];
  int n = snprintf(b, sizeof b, "%s %s\n", what, path);
  syscall(SYS_write, tracefd, b, n);
}
static int full(int dfd, const char *p, char *out) {
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); }
  else {
    char cwd[PATH_MAX];
    if (dfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0; }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
      int n = syscall(SYS_readlinkat, AT_FDCWD, l, cwd, sizeof cwd - 1);
      if (n < 0) return 0;
      cwd[n] = 0;
    }
    snprintf(out, PATH_MAX, "%s/%s", cwd, p);
  }
  return root[0] && !strncmp(out, root, strlen(root));
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

// Before a changing operation: 1 if it must fail with errno set.
static int before(const char *what, const char *path) {
  trace(what, path);
  int k = count++;
  if (k != fault_k || kind == 'r') return 0;
  if (kind == 'b') die();
  if (kind == 'e') { errno = fault_errno; return 1; }
  return 0;
}
static void after(void) { if (fault_k >= 0 && kind != 'r' && count - 1 == fault_k && kind == 'a') die(); }
static int is_short(void) { return fault_k >= 0 && count - 1 == fault_k && (kind == 's' || kind == 't'); }

// Before a reading operation: 1 if it must fail with errno set.
static int rcount;
static char reading[4096];
static int before_read(const char *what, const char *path) {
  trace(what, path);
  int k = rcount++;
  if (kind == 'r' && k == fault_k) { errno = fault_errno; return 1; }
  return 0;
}
static int changing(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
static int do_open(int dfd, const char *p, int fl, mode_t m) {
  init();
  char f[PATH_MAX];
  if (!full(dfd, p, f)) return syscall(SYS_openat, dfd, p, fl, m);
  if (!changing(fl)) {
    if (before_read("read", f)) return -1;
    int fd = syscall(SYS_openat, dfd, p, fl, m);
    if (fd >= 0 && fd < (int)sizeof reading) reading[fd] = 1;
    return fd;
  }
  if (before("open", f)) return -1;
  int fd = syscall(SYS_openat, dfd, p, fl, m);
  if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 1;
  after();
  return fd;
}
#define MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
int close(int fd) {
  if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = reading[fd] = 0;
  return syscall(SYS_close, fd);
}
static int is_watched(int fd) { init(); return fd >= 0 && fd < (int)sizeof watched && watched[fd]; }
static int failing;
ssize_t read(int fd, void *b, size_t n) {
  init();
  if (fd >= 0 && fd < (int)sizeof reading && reading[fd] && before_read("get", "")) return -1;
  return syscall(SYS_read, fd, b, n);
}
DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  init();
  char f[PATH_MAX];
  if (full(AT_FDCWD, p, f) && before_read("list", f)) return NULL;
  return real(p);
}
static ssize_t cut(ssize_t r) {
  if (kind == 't') die();
  failing = 1;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!is_watched(fd)) return syscall(SYS_write, fd, b, n);
  if (failing) { errno = fault_errno; return -1; }
  if (before("write", "")) return -1;
  if (is_short()) return cut(syscall(SYS_write, fd, b, n / 2));
  ssize_t r = syscall(SYS_write, fd, b, n);
  after();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_watched(fd)) return syscall(SYS_writev, fd, v, c);
  if (failing) { errno = fault_errno; return -1; }
  if (before("write", "")) return -1;
  if (is_short() && c > 0) return cut(syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2));
  ssize_t r = syscall(SYS_writev, fd, v, c);
  after();
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!is_watched(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  if (failing) { errno = fault_errno; return -1; }
  if (before("write", "")) return -1;
  if (is_short()) return cut(syscall(SYS_pwrite64, fd, b, n / 2, o));
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  after();
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  if (!is_watched(o)) return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
  if (failing) { errno = fault_errno; return -1; }
  if (before("write", "")) return -1;
  if (is_short()) { errno = fault_errno; failing = 1; return -1; }
  ssize_t r = syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
  after();
  return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (is_watched(o)) {
    if (failing) { errno = fault_errno; return -1; }
    if (before("write", "")) return -1;
  }
  ssize_t r = syscall(SYS_sendfile, o, i, off, n);
  if (is_watched(o)) after();
  return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
static int do_sync(int fd) {
  if (!is_watched(fd)) return 0;
  if (before("sync", "")) return -1;
  after();
  return 0;
}
// the scratch files need not reach a disk
int fsync(int fd) { return do_sync(fd); }
int fdatasync(int fd) { return do_sync(fd); }
int ftruncate64(int fd, off64_t n) {
  if (is_watched(fd)) { if (before("truncate", "")) return -1; }
  int r = syscall(SYS_ftruncate, fd, n);
  if (is_watched(fd)) after();
  return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

#define ONE(name, call) { init(); char f[PATH_MAX]; if (!full(AT_FDCWD, p, f)) return call; if (before(name, f)) return -1; int r = call; after(); return r; }
int truncate64(const char *p, off64_t n) ONE("truncate", syscall(SYS_truncate, p, n))
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int unlink(const char *p) ONE("unlink", syscall(SYS_unlinkat, AT_FDCWD, p, 0))
int rmdir(const char *p) ONE("rmdir", syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR))
int mkdir(const char *p, mode_t m) ONE("mkdir", syscall(SYS_mkdirat, AT_FDCWD, p, m))
int unlinkat(int d, const char *p, int fl) {
  init();
  char f[PATH_MAX];
  if (!full(d, p, f)) return syscall(SYS_unlinkat, d, p, fl);
  if (before("unlink", f)) return -1;
  int r = syscall(SYS_unlinkat, d, p, fl);
  after();
  return r;
}
int mkdirat(int d, const char *p, mode_t m) {
  init();
  char f[PATH_MAX];
  if (!full(d, p, f)) return syscall(SYS_mkdirat, d, p, m);
  if (before("mkdir", f)) return -1;
  int r = syscall(SYS_mkdirat, d, p, m);
  after();
  return r;
}
static int do_rename(int a, const char *p, int b, const char *q, unsigned fl) {
  init();
  char f[PATH_MAX], g[PATH_MAX];
  int x = full(a, p, f), y = full(b, q, g);
  if (!x && !y) return syscall(SYS_renameat2, a, p, b, q, fl);
  if (before("rename", g)) return -1;
  int r = syscall(SYS_renameat2, a, p, b, q, fl);
  after();
  return r;
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned fl) { return do_rename(a, p, b, q, fl); }
static int do_link(int a, const char *p, int b, const char *q, int fl, int sym) {
  init();
  char g[PATH_MAX];
  int y = full(b, q, g);
  if (y && before("link", g)) return -1;
  int r = sym ? syscall(SYS_symlinkat, p, b, q) : syscall(SYS_linkat, a, p, b, q, fl);
  if (y) after();
  return r;
}
int link(const char *p, const char *q) { return do_link(AT_FDCWD, p, AT_FDCWD, q, 0, 0); }
int linkat(int a, const char *p, int b, const char *q, int fl) { return do_link(a, p, b, q, fl, 0); }
int symlink(const char *p, const char *q) { return do_link(0, p, AT_FDCWD, q, 0, 1); }
int symlinkat(const char *p, int b, const char *q) { return do_link(0, p, b, q, 0, 1); }

int clock_gettime(clockid_t c, struct timespec *t) {
  init();
  if (fixed_clock >= 0 && c == CLOCK_REALTIME) { t->tv_sec = fixed_clock; t->tv_nsec = 0; return 0; }
  return syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *t) {
  struct timespec x;
  clock_gettime(CLOCK_REALTIME, &x);
  if (t) *t = x.tv_sec;
  return x.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  struct timespec x;
  clock_gettime(CLOCK_REALTIME, &x);
  tv->tv_sec = x.tv_sec;
  tv->tv_usec = x.tv_nsec / 1000;
  return 0;
}

// Directory listings: sorted by name, then the order-th permutation.
struct list { DIR *d; int n, i; struct dirent64 *e; struct list *next; };
static struct list *lists;
static int cmp(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static struct list *load(DIR *d, struct dirent64 *(*next)(DIR *)) {
  struct list *l;
  for (l = lists; l; l = l->next) if (l->d == d) return l;
  l = calloc(1, sizeof *l);
  l->d = d; l->next = lists; lists = l;
  struct dirent64 *e;
  int dots = 0;
  while ((e = next(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) { dots++; continue; }
    l->e = realloc(l->e, (l->n + 1) * sizeof *e);
    memset(&l->e[l->n], 0, sizeof *e);
    memcpy(&l->e[l->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    l->n++;
  }
  qsort(l->e, l->n, sizeof *l->e, cmp);
  long o = order;
  for (int i = 0; i < l->n; i++) {
    int m = l->n - i, j = i + o % m;
    o /= m;
    struct dirent64 x = l->e[j];
    memmove(&l->e[i + 1], &l->e[i], (j - i) * sizeof x);
    l->e[i] = x;
  }
  return l;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  init();
  if (order < 0) return real(d);
  struct list *l = load(d, real);
  return l->i < l->n ? &l->e[l->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  for (struct list **p = &lists; *p; p = &(*p)->next)
    if ((*p)->d == d) { struct list *l = *p; *p = l->next; free(l->e); free(l); break; }
  return real(d);
}
