/* Interposed file-system calls.  Calls on paths below `root` (and on descriptors opened there) are numbered;
 * faults are injected at chosen numbers.  Everything else goes straight to libc. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R = 1, OPEN_W, READ, WRITE, CLOSE, UNLINK, RENAME, SYNC, FREAD, FWRITE, FCLOSE, CLOSE_R };
enum { A_ERRNO = 1, A_SHORT, A_CRASH, A_TORN, A_FULL };
#define NFD 4096
#define NFAULT 64
#define NTRACE 20000

static int active;
static char root[512];
static size_t rootlen;
static unsigned char tracked[NFD]; /* 1 = opened below root, 2 = for writing */
static int fault_at[NFAULT], fault_act[NFAULT], fault_arg[NFAULT], nfault;
static int op, full, limit;
static long quota;
static int trace[NTRACE * 3], ntrace; /* kind, action delivered, result */

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void simfs_begin(const char *r, const int *at, const int *act, const int *arg, int n, long bytes, int max_ops) {
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  nfault = n < NFAULT ? n : NFAULT;
  for (int i = 0; i < nfault; i++) { fault_at[i] = at[i]; fault_act[i] = act[i]; fault_arg[i] = arg[i]; }
  op = ntrace = full = 0;
  quota = bytes;
  limit = max_ops;
  active = 1;
}
void simfs_stop(void) { active = 0; }
void simfs_active(int a) { active = a; }
int simfs_trace(int *out, int n) {
  int m = ntrace < n ? ntrace : n;
  memcpy(out, trace, sizeof(int) * 3 * m);
  return ntrace;
}
int simfs_open_fds(void) {
  int n = 0;
  for (int i = 0; i < NFD; i++) n += tracked[i] != 0;
  return n;
}
int simfs_present(void) { return 4711; }

static int below(const char *p) {
  char buf[4200];
  if (!active || !p) return 0;
  if (p[0] != '/') {
    if (!getcwd(buf, 2048)) return 0;
    size_t n = strlen(buf);
    snprintf(buf + n, sizeof buf - n, "/%s", p);
    p = buf;
  }
  return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
static int mine(int fd) { return active && fd >= 0 && fd < NFD && tracked[fd]; }

/* -> action for this operation (0 = none) */
static int next(int kind, int *arg) {
  int k = op++;
  if (limit && op > limit) _exit(99); /* endless */
  int a = 0;
  for (int i = 0; i < nfault; i++)
    if (fault_at[i] == k) { a = fault_act[i]; *arg = fault_arg[i]; }
  if (a == A_FULL && kind == WRITE) { full = 1; }
  if (full && kind == WRITE && a != A_FULL) { a = A_ERRNO; *arg = ENOSPC; }
  if (a == A_SHORT && !(kind == READ || kind == WRITE)) a = 0;
  if (a == A_TORN && kind != WRITE) a = A_CRASH;
  if (a == A_FULL && kind != WRITE) a = 0;
  if (a == A_ERRNO && *arg == EINTR && !(kind == READ || kind == WRITE || kind == OPEN_R || kind == OPEN_W)) a = 0;
  return a;
}
static void note(int kind, int act, long r) {
  if (ntrace < NTRACE) { trace[3 * ntrace] = kind; trace[3 * ntrace + 1] = act; trace[3 * ntrace + 2] = (int)r; ntrace++; }
}
#define CRASH_CHECK(a) do { if ((a) == A_CRASH) _exit(98); } while (0)

static int after_open(int fd, int flags, int kind) {
  note(kind, 0, fd >= 0 ? 0 : -errno);
  if (fd >= 0 && fd < NFD) tracked[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
  return fd;
}
#define OPEN_BODY(call, path, flags)                                                   \
  if (!below(path)) return call;                                                       \
  {                                                                                    \
    struct stat st_;                                                                   \
    int kind = ((flags) & O_ACCMODE) == O_RDONLY ? OPEN_R : OPEN_W, arg = 0;           \
    if (kind == OPEN_R && stat(path, &st_) == 0 && S_ISDIR(st_.st_mode)) return call;  \
    int a = next(kind, &arg);                                                          \
    CRASH_CHECK(a);                                                                    \
    if (a == A_ERRNO) { note(kind, a, -arg); errno = arg; return -1; }                 \
    return after_open(call, flags, kind);                                              \
  }
#define MODE                                   \
  mode_t mode = 0;                             \
  if (flags & (O_CREAT | O_TMPFILE)) {         \
    va_list ap;                                \
    va_start(ap, flags);                       \
    mode = va_arg(ap, mode_t);                 \
    va_end(ap);                                \
  }
int open(const char *path, int flags, ...) {
  MODE REAL(int, open, const char *, int, ...);
  OPEN_BODY(real_open(path, flags, mode), path, flags)
}
int open64(const char *path, int flags, ...) {
  MODE REAL(int, open64, const char *, int, ...);
  OPEN_BODY(real_open64(path, flags, mode), path, flags)
}
int openat(int d, const char *path, int flags, ...) {
  MODE REAL(int, openat, int, const char *, int, ...);
  if (d != AT_FDCWD && path[0] != '/') return real_openat(d, path, flags, mode);
  OPEN_BODY(real_openat(d, path, flags, mode), path, flags)
}
int openat64(int d, const char *path, int flags, ...) {
  MODE REAL(int, openat64, int, const char *, int, ...);
  if (d != AT_FDCWD && path[0] != '/') return real_openat64(d, path, flags, mode);
  OPEN_BODY(real_openat64(d, path, flags, mode), path, flags)
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *after_fopen(FILE *f, int kind, int w) {
  note(kind, 0, f ? 0 : -errno);
  if (f) { int fd = fileno(f); if (fd >= 0 && fd < NFD) tracked[fd] = w ? 2 : 1; }
  return f;
}
#define FOPEN_BODY(real)                                                          \
  if (!below(path)) return real(path, m);                                         \
  int w = strpbrk(m, "wa+") != NULL, kind = w ? OPEN_W : OPEN_R, arg = 0;         \
  int a = next(kind, &arg);                                                       \
  CRASH_CHECK(a);                                                                 \
  if (a == A_ERRNO) { note(kind, a, -arg); errno = arg; return NULL; }            \
  return after_fopen(real(path, m), kind, w);
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *); FOPEN_BODY(real_fopen) }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *); FOPEN_BODY(real_fopen64) }

int close(int fd) {
  REAL(int, close, int);
  if (fd >= 0 && fd < NFD && tracked[fd]) {
    int was = tracked[fd], arg = 0;
    if (!active) { tracked[fd] = 0; return real_close(fd); }
    int kind = was == 2 ? CLOSE : CLOSE_R, a = next(kind, &arg);
    CRASH_CHECK(a);
    tracked[fd] = 0;
    int r = real_close(fd);
    if (a == A_ERRNO) { note(kind, a, -arg); errno = arg; return -1; }
    note(kind, 0, r);
    return r;
  }
  return real_close(fd);
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  int fd = fileno(f);
  if (mine(fd) && __fpending(f) > 0) { /* the buffered rest is written now */
    int arg = 0, a = next(FCLOSE, &arg);
    CRASH_CHECK(a);
    if (a != A_ERRNO && (full || (quota >= 0 && (long)__fpending(f) > quota))) { a = A_ERRNO; arg = ENOSPC; }
    tracked[fd] = 0;
    if (a == A_ERRNO) {
      __fpurge(f);
      real_fclose(f);
      note(FCLOSE, a, -arg);
      errno = arg;
      return EOF;
    }
    if (quota >= 0) quota -= __fpending(f);
    note(FCLOSE, 0, 0);
    return real_fclose(f);
  }
  if (fd >= 0 && fd < NFD) tracked[fd] = 0;
  return real_fclose(f);
}
#define XFER(kind, n, call_n)                                                                  \
  int arg = 0, a = next(kind, &arg);                                                           \
  CRASH_CHECK(a);                                                                              \
  if (a == A_ERRNO) { note(kind, a, -arg); errno = arg; return -1; }                           \
  size_t m = n;                                                                                \
  if ((a == A_SHORT || a == A_TORN || a == A_FULL) && m > 0) {                                 \
    m = a == A_SHORT ? 1 + (size_t)arg % m : (size_t)arg % m;                                  \
    if (a == A_FULL && m == 0) { note(kind, A_ERRNO, -ENOSPC); errno = ENOSPC; return -1; }    \
  } else if (a == A_SHORT) a = 0;                                                              \
  if (kind == WRITE && quota >= 0) {                                                           \
    if (quota == 0 && m) { note(kind, A_ERRNO, -ENOSPC); errno = ENOSPC; return -1; }          \
    if ((long)m > quota) { m = quota; a = A_SHORT; }                                           \
  }                                                                                            \
  ssize_t r = m ? call_n : (a == A_TORN ? 0 : call_n);                                         \
  if (kind == WRITE && quota >= 0 && r > 0) quota -= r;                                        \
  if (a == A_TORN) _exit(98);                                                                  \
  note(kind, a, r);                                                                            \
  return r;
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!mine(fd)) return real_read(fd, b, n);
  XFER(READ, n, real_read(fd, b, m))
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  REAL(ssize_t, pread, int, void *, size_t, off_t);
  if (!mine(fd)) return real_pread(fd, b, n, o);
  XFER(READ, n, real_pread(fd, b, m, o))
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  REAL(ssize_t, pread64, int, void *, size_t, off64_t);
  if (!mine(fd)) return real_pread64(fd, b, n, o);
  XFER(READ, n, real_pread64(fd, b, m, o))
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!mine(fd)) return real_write(fd, b, n);
  XFER(WRITE, n, real_write(fd, b, m))
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
  if (!mine(fd)) return real_pwrite(fd, b, n, o);
  XFER(WRITE, n, real_pwrite(fd, b, m, o))
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  if (!mine(fd)) return real_pwrite64(fd, b, n, o);
  XFER(WRITE, n, real_pwrite64(fd, b, m, o))
}
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fread, void *, size_t, size_t, FILE *);
  if (!mine(fileno(f))) return real_fread(b, s, n, f);
  int arg = 0, a = next(FREAD, &arg);
  CRASH_CHECK(a);
  if (a == A_ERRNO) { /* part of the data, then an error */
    size_t r = n ? real_fread(b, s, (size_t)(arg * 7) % n, f) : 0;
    note(FREAD, a, -arg);
    errno = arg;
    return r;
  }
  size_t r = real_fread(b, s, n, f);
  note(FREAD, 0, r);
  return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  if (!mine(fileno(f))) return real_fwrite(b, s, n, f);
  int arg = 0, a = next(FWRITE, &arg);
  CRASH_CHECK(a);
  if (a == A_ERRNO) {
    size_t r = n ? real_fwrite(b, s, (size_t)(arg * 7) % n, f) : 0;
    note(FWRITE, a, -arg);
    errno = arg;
    return r;
  }
  if (full) n = 0;
  size_t r = real_fwrite(b, s, n, f);
  note(FWRITE, full ? A_ERRNO : 0, r);
  return r;
}
#define SIMPLE(kind, cond, call)                                         \
  if (!(cond)) return call;                                              \
  int arg = 0, a = next(kind, &arg);                                     \
  CRASH_CHECK(a);                                                        \
  if (a == A_ERRNO) { note(kind, a, -arg); errno = arg; return -1; }     \
  int r = call;                                                          \
  note(kind, 0, r);                                                      \
  return r;
int unlink(const char *p) { REAL(int, unlink, const char *); SIMPLE(UNLINK, below(p), real_unlink(p)) }
int unlinkat(int d, const char *p, int fl) { REAL(int, unlinkat, int, const char *, int); SIMPLE(UNLINK, below(p), real_unlinkat(d, p, fl)) }
int rename(const char *p, const char *q) { REAL(int, rename, const char *, const char *); SIMPLE(RENAME, below(p) || below(q), real_rename(p, q)) }
int renameat(int d, const char *p, int e, const char *q) {
  REAL(int, renameat, int, const char *, int, const char *);
  SIMPLE(RENAME, below(p) || below(q), real_renameat(d, p, e, q))
}
int fsync(int fd) { REAL(int, fsync, int); SIMPLE(SYNC, mine(fd), real_fsync(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int); SIMPLE(SYNC, mine(fd), real_fdatasync(fd)) }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); SIMPLE(SYNC, mine(fd), real_ftruncate(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); SIMPLE(SYNC, mine(fd), real_ftruncate64(fd, n)) }
static int copied(int from, int to) {
  if (to >= 0 && to < NFD && from >= 0 && from < NFD) tracked[to] = active ? tracked[from] : 0;
  return to;
}
int dup(int fd) { REAL(int, dup, int); return copied(fd, real_dup(fd)); }
int dup2(int fd, int t) { REAL(int, dup2, int, int); return copied(fd, real_dup2(fd, t)); }
int dup3(int fd, int t, int fl) { REAL(int, dup3, int, int, int); return copied(fd, real_dup3(fd, t, fl)); }
static int do_fcntl(int (*f)(int, int, ...), int fd, int cmd, long arg) {
  int r = f(fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) copied(fd, r);
  return r;
}
int fcntl(int fd, int cmd, ...) {
  REAL(int, fcntl, int, int, ...);
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(real_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  REAL(int, fcntl64, int, int, ...);
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(real_fcntl64, fd, cmd, arg);
}
