// LD_PRELOAD shim for the command line tool: writes an event log of what it does to files below VF_ROOT, delays and fails
// chosen calls. VF_LOG=<file>; VF_FAIL=<op>:<path suffix>:<nth>:<errno|short|kill>; VF_DELAY=<op>:<path suffix>:<max us>
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <signal.h>

static char root[4096], logp[4096], fop[32], fsuf[1024], fact[32], dop[32], dsuf[1024];
static int rootlen, fnth, dmax, logfd = -1;
static atomic_int seen, seed;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("VF_ROOT");
  if (s) { strncpy(root, s, sizeof root - 1); rootlen = strlen(root); }
  s = getenv("VF_LOG");
  if (s) { logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); }
  s = getenv("VF_FAIL");
  if (s) sscanf(s, "%31[^:]:%1023[^:]:%d:%31s", fop, fsuf, &fnth, fact);
  s = getenv("VF_DELAY");
  if (s) sscanf(s, "%31[^:]:%1023[^:]:%d", dop, dsuf, &dmax);
}
static int fdpath(int fd, char *out) {
  char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  int n = syscall(SYS_readlinkat, AT_FDCWD, p, out, 4095);
  if (n < 0) return 0;
  out[n] = 0; return 1;
}
static int ends(const char *a, const char *suf) {
  size_t n = strlen(a), m = strlen(suf);
  return m <= n && !strcmp(a + n - m, suf);
}
static int watched(const char *p) { return rootlen && !strncmp(p, root, rootlen) && p[rootlen] == '/'; }
static void ev(const char *op, const char *path, long n, int err) {
  if (logfd < 0) return;
  char b[4600]; int l = snprintf(b, sizeof b, "%s %ld %d %s\n", op, n, err, path + (watched(path) ? rootlen + 1 : 0));
  syscall(SYS_write, logfd, b, l);
}
// 0: go on; -1: fail with errno set; 1: do it short
static int inject(const char *op, const char *path) {
  if (*dop && (!strcmp(dop, op) || !strcmp(dop, "any")) && ends(path, dsuf)) {
    unsigned x = (unsigned)atomic_fetch_add(&seed, 1) * 2654435761u ^ (unsigned)getpid();
    if (dmax > 0) usleep(x % (unsigned)dmax);
  }
  if (*fop && !strcmp(fop, op) && ends(path, fsuf)) {
    int k = atomic_fetch_add(&seen, 1) + 1;
    if (fnth == 0 || k == fnth) {
      if (!strcmp(fact, "short")) return 1;
      if (!strcmp(fact, "kill")) { ev("kill", path, k, 0); kill(getpid(), SIGKILL); }
      errno = !strcmp(fact, "ENOSPC") ? ENOSPC : !strcmp(fact, "EIO") ? EIO : !strcmp(fact, "EACCES") ? EACCES : !strcmp(fact, "EINTR") ? EINTR : !strcmp(fact, "EMFILE") ? EMFILE : EFBIG;
      ev("injected", path, k, errno);
      return -1;
    }
  }
  return 0;
}
#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  char full[8192];
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else { char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
         const char *p = path; while (p[0] == '.' && p[1] == '/') p += 2; snprintf(full, sizeof full, "%s/%s", cwd, p); }
  int w = watched(full) && !(flags & O_DIRECTORY);
  const char *op = (flags & O_ACCMODE) == O_RDONLY ? "openr" : "openw";
  if (w && inject(op, full) < 0) return -1;
  int fd = syscall(SYS_openat, dfd, path, flags, mode);
  int e = errno;
  if (w) ev(op, full, fd < 0 ? 0 : (flags & (O_TRUNC | O_CREAT)) ? 2 : 1, fd < 0 ? e : 0);
  errno = e;
  return fd;
}
int open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f | O_LARGEFILE, m); }

ssize_t write(int fd, const void *b, size_t n) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w) { int k = inject("write", p); if (k < 0) return -1; if (k > 0 && n > 1) n = n / 2; }
  ssize_t r = syscall(SYS_write, fd, b, n); int e = errno;
  if (w) ev("write", p, r, r < 0 ? e : 0);
  errno = e; return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w) { int k = inject("write", p); if (k < 0) return -1; }
  ssize_t r = syscall(SYS_writev, fd, v, c); int e = errno;
  if (w) ev("write", p, r, r < 0 ? e : 0);
  errno = e; return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w && inject("write", p) < 0) return -1;
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o); int e = errno;
  if (w) ev("write", p, r, r < 0 ? e : 0);
  errno = e; return r;
}
ssize_t read(int fd, void *b, size_t n) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w) { int k = inject("read", p); if (k < 0) return -1; if (k > 0 && n > 1) n = n / 2; }
  ssize_t r = syscall(SYS_read, fd, b, n); int e = errno;
  if (w) ev("read", p, r, r < 0 ? e : 0);
  errno = e; return r;
}
int ftruncate64(int fd, off64_t l) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w && inject("ftruncate", p) < 0) return -1;
  int r = syscall(SYS_ftruncate, fd, l); int e = errno;
  if (w) ev("ftruncate", p, l, r < 0 ? e : 0);
  errno = e; return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
off64_t lseek64(int fd, off64_t o, int wh) {
  char p[4096]; int w = fdpath(fd, p) && watched(p);
  if (w && inject("lseek", p) < 0) return -1;
  return syscall(SYS_lseek, fd, o, wh);
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
int rename(const char *a, const char *b) {
  int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); int e = errno;
  ev("rename", b, 0, r < 0 ? e : 0); errno = e; return r;
}
int unlink(const char *a) {
  int r = syscall(SYS_unlinkat, AT_FDCWD, a, 0); int e = errno;
  ev("unlink", a, 0, r < 0 ? e : 0); errno = e; return r;
}
