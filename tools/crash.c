/* Fault injector, preloaded into the real binary: numbers every operation that changes files of the watched folder
 * (CRASH_DIR, also the working directory) and ends the process at operation CRASH_AT, after CRASH_BYTES bytes of it if
 * it is a write. With CRASH_MODE=error the operation fails instead (no space left), once; with CRASH_MODE=full that
 * operation and all later writes and creations fail; with CRASH_MODE=short a write is only done up to CRASH_BYTES and
 * reported so. CRASH_LOG receives one line per operation: kind and size. Nothing else is altered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#define MAXFD 4096
static char watched[MAXFD];
static long count, at = -1, bytes;
static int logfd = -2;
static char mode; /* 0 end of the process, e error, f full, s short write */
static const char *dir;
static size_t dirlen;

static void init(void) {
  if (logfd != -2) return;
  logfd = -1;
  dir = getenv("CRASH_DIR");
  dirlen = dir ? strlen(dir) : 0;
  const char *s = getenv("CRASH_AT");
  if (s) at = atol(s);
  s = getenv("CRASH_BYTES");
  if (s) bytes = atol(s);
  s = getenv("CRASH_MODE");
  if (s) mode = s[0];
  s = getenv("CRASH_LOG");
  if (s) logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
static int inside(const char *p) {
  init();
  if (!dir || !p) return 0;
  if (p[0] != '/') return 1;
  return strncmp(p, dir, dirlen) == 0;
}
/* ends the process, or makes the operation fail */
static int die(void) {
  if (!mode) syscall(SYS_exit_group, 137);
  if (mode == 's') return 0;
  errno = ENOSPC;
  return 1;
}
/* 1 if this is the operation at which the process ends */
static int op(const char *kind, long len) {
  count++;
  if (logfd >= 0) {
    char b[64];
    int n = snprintf(b, sizeof b, "%s %ld\n", kind, len);
    syscall(SYS_write, logfd, b, (size_t)n);
  }
  return count == at || (mode == 'f' && at > 0 && count > at && (kind[0] == 'w' || kind[0] == 'o' || kind[0] == 'c'));
}
static int fdw(int fd) { init(); return fd >= 0 && fd < MAXFD && watched[fd]; }

static int do_open(int dfd, const char *p, int flags, mode_t mode) {
  int w = inside(p) && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
  if (w && op("open", 0) && die()) return -1;
  int fd = syscall(SYS_openat, dfd, p, flags, mode);
  if (fd >= 0 && fd < MAXFD) watched[fd] = w;
  return fd;
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) { if (fd >= 0 && fd < MAXFD) watched[fd] = 0; return syscall(SYS_close, fd); }

ssize_t write(int fd, const void *b, size_t n) {
  if (fdw(fd) && op("write", (long)n)) {
    size_t k = (size_t)bytes < n ? (size_t)bytes : n, d = 0;
    if (mode && mode != 's' && count > at) k = 0;
    while (d < k) { ssize_t r = syscall(SYS_write, fd, (const char *)b + d, k - d); if (r <= 0) break; d += (size_t)r; }
    if (!mode) die();
    if (k) return (ssize_t)k;
    if (mode != 's') { errno = ENOSPC; return -1; }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (fdw(fd) && op("write", (long)n)) {
    size_t k = (size_t)bytes < n ? (size_t)bytes : n;
    if (mode && mode != 's') { errno = ENOSPC; return -1; }
    ssize_t r = syscall(SYS_pwrite64, fd, b, k, o);
    if (!mode) die();
    if (k) return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!fdw(fd)) return syscall(SYS_writev, fd, v, c);
  /* one operation per part: more crash points, same result */
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
int ftruncate64(int fd, off64_t l) { if (fdw(fd) && op("truncate", 0) && die()) return -1; return syscall(SYS_ftruncate, fd, l); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int truncate64(const char *p, off64_t l) { if (inside(p) && op("truncate", 0) && die()) return -1; return syscall(SYS_truncate, p, l); }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int rename(const char *a, const char *b) { if ((inside(a) || inside(b)) && op("rename", 0) && die()) return -1; return syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { if ((inside(a) || inside(b)) && op("rename", 0) && die()) return -1; return syscall(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { if ((inside(a) || inside(b)) && op("rename", 0) && die()) return -1; return syscall(SYS_renameat2, d, a, e, b, f); }
int link(const char *a, const char *b) { if (inside(b) && op("link", 0) && die()) return -1; return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { if (inside(b) && op("link", 0) && die()) return -1; return syscall(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { if (inside(b) && op("link", 0) && die()) return -1; return syscall(SYS_symlink, a, b); }
int unlink(const char *a) { if (inside(a) && op("unlink", 0) && die()) return -1; return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { if (inside(a) && op("unlink", 0) && die()) return -1; return syscall(SYS_unlinkat, d, a, f); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (fdw(o) && op("copy", 0)) { if (mode) { if (die()) return -1; } else { syscall(SYS_copy_file_range, i, io, o, oo, (size_t)bytes < n ? (size_t)bytes : n, f); die(); } }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (fdw(o) && op("copy", 0)) { if (mode) { if (die()) return -1; } else { syscall(SYS_sendfile, o, i, off, (size_t)bytes < n ? (size_t)bytes : n); die(); } }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
