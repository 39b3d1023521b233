/* Simulated file system faults under the real I/O libraries.
 *
 * Preloaded into every simulated process.  Calls that touch files below the
 * scratch directory of the run pass through here; they are counted, and a plan
 * given by the simulator (a list of "call number n of class c fails in way k")
 * is applied.  Everything else, and everything while disarmed, goes straight to
 * the C library.  No randomness and no clock is used here.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPEN, C_READ, C_WRITE, C_TRUNC, C_SYNC, C_CLOSE, C_RENAME, NCLS };
enum { K_EIO = 1, K_ENOSPC, K_SHORT, K_EINTR, K_CRASH, K_EMFILE, K_EACCES, K_FULL, K_TORNCRASH, K_EDQUOT };

#define MAXFD 4096
#define MAXPLAN 64

static char prefix[1024];
static size_t plen = 0;
static int armed = 0;
static char mine[MAXFD];               /* fd was opened below the prefix */
static char wr[MAXFD];
static char *paths[MAXFD];
static long cnt[NCLS];
static long fired[16];
static struct { int cls, kind; long n, arg; int used; } plan[MAXPLAN];
static int nplan = 0;
static long budget = -1;               /* bytes the disk still has room for */
static long nfull = 0;

#define REAL(name) static __typeof__(name) *real = 0; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void simio_prefix(const char *p) { strncpy(prefix, p, sizeof(prefix) - 1); plen = strlen(prefix); }
void simio_arm(int on) { armed = on; }
void simio_reset(void) { memset(cnt, 0, sizeof cnt); nplan = 0; budget = -1; nfull = 0; memset(fired, 0, sizeof fired); }
void simio_zero(void) { memset(cnt, 0, sizeof cnt); }
int simio_plan(int cls, long n, int kind, long arg) {
  if (nplan >= MAXPLAN) return -1;
  plan[nplan].cls = cls; plan[nplan].n = n; plan[nplan].kind = kind; plan[nplan].arg = arg; plan[nplan].used = 0;
  return nplan++;
}
void simio_budget(long b) { budget = b; }
long simio_count(int cls) { return cnt[cls]; }
long simio_fired(int kind) { return fired[kind]; }
int simio_openfds(void) { int i, n = 0; for (i = 0; i < MAXFD; i++) n += mine[i]; return n; }
const char *simio_fdpath(int i) { return i >= 0 && i < MAXFD && mine[i] ? paths[i] : 0; }
int simio_present(void) { return 1; }

static int under(const char *p) {
  if (!plen || !p) return 0;
  if (p[0] != '/') return 1;           /* the working directory of a run is its scratch directory */
  return strncmp(p, prefix, plen) == 0;
}
/* The planned fault of this call, or 0.  */
static int hit(int cls, long *arg) {
  int i; long k = cnt[cls]++;
  for (i = 0; i < nplan; i++)
    if (plan[i].arg == -1 ? plan[i].cls == cls && plan[i].n <= k    /* from then on, every time */
                          : !plan[i].used && plan[i].cls == cls && plan[i].n == k) {
      plan[i].used = 1; fired[plan[i].kind]++; if (arg) *arg = plan[i].arg; return plan[i].kind;
    }
  return 0;
}
static int err(int k) {
  switch (k) {
    case K_EIO: errno = EIO; break;
    case K_ENOSPC: errno = ENOSPC; break;
    case K_EINTR: errno = EINTR; break;
    case K_EMFILE: errno = EMFILE; break;
    case K_EACCES: errno = EACCES; break;
    case K_EDQUOT: errno = EDQUOT; break;
    default: errno = EIO;
  }
  return -1;
}
static int isours(int fd) { return armed && fd >= 0 && fd < MAXFD && mine[fd]; }

static int opened(int fd, const char *path, int flags) {
  if (fd >= 0 && fd < MAXFD) {
    mine[fd] = 1; wr[fd] = (flags & O_ACCMODE) != O_RDONLY;
    free(paths[fd]); paths[fd] = strdup(path);
  }
  return fd;
}
#define OPENBODY(name) \
  mode_t mode = 0; REAL(name); \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (!under(path) || (flags & O_DIRECTORY)) return real(path, flags, mode); \
  if (armed) { int k = hit(C_OPEN, 0); if (k == K_CRASH) _exit(77); if (k) return err(k); } \
  return opened(real(path, flags, mode), path, flags);

int open(const char *path, int flags, ...) { OPENBODY(open) }
int open64(const char *path, int flags, ...) { OPENBODY(open64) }
int openat(int dfd, const char *path, int flags, ...) {
  mode_t mode = 0; REAL(openat);
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (dfd != AT_FDCWD || !under(path) || (flags & O_DIRECTORY)) return real(dfd, path, flags, mode);
  if (armed) { int k = hit(C_OPEN, 0); if (k == K_CRASH) _exit(77); if (k) return err(k); }
  return opened(real(dfd, path, flags, mode), path, flags);
}
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open64(path, flags); }

static FILE *fopened(FILE *f, const char *path, const char *m) { if (f) opened(fileno(f), path, m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : O_RDWR); return f; }
FILE *fopen(const char *path, const char *m) {
  REAL(fopen);
  if (!under(path)) return real(path, m);
  if (armed) { int k = hit(C_OPEN, 0); if (k == K_CRASH) _exit(77); if (k) { err(k); return 0; } }
  return fopened(real(path, m), path, m);
}
FILE *fopen64(const char *path, const char *m) {
  REAL(fopen64);
  if (!under(path)) return real(path, m);
  if (armed) { int k = hit(C_OPEN, 0); if (k == K_CRASH) _exit(77); if (k) { err(k); return 0; } }
  return fopened(real(path, m), path, m);
}
int fclose(FILE *f) {
  REAL(fclose); int fd = fileno(f);
  if (fd >= 0 && fd < MAXFD && mine[fd]) {
    int k = 0;
    if (armed) k = hit(C_CLOSE, 0);
    if (k == K_CRASH) _exit(77);
    mine[fd] = 0;
    int r = real(f);
    if (k) return err(k);
    return r;
  }
  return real(f);
}

#define READBODY(call) \
  if (isours(fd)) { long a = 0; int k = hit(C_READ, &a); \
    if (k == K_CRASH) _exit(77); \
    if (k == K_SHORT) { if (n > 1) n = a > 0 && (size_t)a < n ? (size_t)a : n / 2; } \
    else if (k) return err(k); } \
  return call;

ssize_t read(int fd, void *b, size_t n) { REAL(read); READBODY(real(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); READBODY(real(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); READBODY(real(fd, b, n, o)) }

/* How many of n bytes the disk accepts; -1: none (errno set); -2: crash after *part bytes. */
static ssize_t room(int fd, size_t n, size_t *part) {
  long a = 0; int k = hit(C_WRITE, &a);
  *part = n;
  if (k == K_CRASH) _exit(77);
  if (k == K_TORNCRASH) { *part = a > 0 && (size_t)a < n ? (size_t)a : n / 2; return -2; }
  if (k == K_SHORT) { if (n > 1) *part = a > 0 && (size_t)a < n ? (size_t)a : n / 2; return 0; }
  if (k) return err(k);
  if (budget >= 0) {
    if (budget == 0 && n > 0) { nfull++; fired[K_FULL]++; errno = ENOSPC; return -1; }
    if ((size_t)budget < n) *part = budget;
    budget -= *part;
  }
  return 0;
}
#define WRITEBODY(callp) \
  if (isours(fd)) { size_t m; ssize_t q = room(fd, n, &m); \
    if (q == -1) return -1; \
    n = m; \
    if (q == -2) { if (callp) {} _exit(77); } } \
  return callp;
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WRITEBODY(real(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); WRITEBODY(real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WRITEBODY(real(fd, b, n, o)) }

#define SIMPLE(cls, call) if (isours(fd)) { int k = hit(cls, 0); if (k == K_CRASH) _exit(77); if (k) return err(k); } return call;
int ftruncate(int fd, off_t len) { REAL(ftruncate); SIMPLE(C_TRUNC, real(fd, len)) }
int ftruncate64(int fd, off64_t len) { REAL(ftruncate64); SIMPLE(C_TRUNC, real(fd, len)) }
int fsync(int fd) { REAL(fsync); SIMPLE(C_SYNC, real(fd)) }
int fdatasync(int fd) { REAL(fdatasync); SIMPLE(C_SYNC, real(fd)) }
int close(int fd) {
  REAL(close);
  if (fd >= 0 && fd < MAXFD && mine[fd]) {
    int k = 0;
    if (armed) k = hit(C_CLOSE, 0);
    if (k == K_CRASH) _exit(77);
    mine[fd] = 0;
    int r = real(fd);          /* as in reality, the descriptor is gone even when close reports an error */
    if (k) return err(k);
    return r;
  }
  return real(fd);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  if (armed && (under(a) || under(b))) { int k = hit(C_RENAME, 0); if (k == K_CRASH) _exit(77); if (k) return err(k); }
  return real(a, b);
}

/* When closing an HDF5 file fails, libnetcdf reports the objects left open, and
   crashes while it does that.  Nothing to report, then. */
long H5Fget_obj_count(long id, unsigned types) { (void)id; (void)types; return 0; }
