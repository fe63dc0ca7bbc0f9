/* LD_PRELOAD seam between the planner (CPython, GDAL, libzip...) and the disk.
 *
 * Only operations on paths under the armed root (the run's scratch directory)
 * are counted and may fail; everything else passes straight through.  Off until
 * dst_arm() is called.  One operation number is one fault point, so a run is a
 * pure function of the armed plan.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define OPEN_R 1
#define OPEN_W 2
#define READ 4
#define WRITE 8
#define CLOSE 16
#define MKDIR 32
#define UNLINK 64
#define RENAME 128

#define K_ERRNO 1   /* fail with err                              */
#define K_SHORT 2   /* move half of the bytes, report the half    */
#define K_TORN 3    /* write half of the bytes, then fail with err*/
#define K_CRASH 4   /* the process dies before the operation      */
#define K_TORNCRASH 5 /* half of the bytes reach the disk, then death */
#define K_LOST 6    /* the write is acknowledged but never reaches the disk */

#define MAXFD 4096
#define MAXFILE 256
static char root[1024];
static size_t rootlen = 0;
static int armed = 0, observe = 0;
static int f_mask, f_nth, f_kind, f_err, f_sticky;
static long n_ops = 0, n_match = 0, n_fired = 0;
static unsigned char tracked[MAXFD]; /* 1 = data file, 2 = directory */
static FILE *tfiles[MAXFILE];
static long opcount[8];
static __thread int inside = 0;

#define REAL(name) \
  static __typeof__(&name) real = 0; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

void dst_root(const char *r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
void dst_arm(int mask, int nth, int kind, int err, int sticky) {
  f_mask = mask; f_nth = nth; f_kind = kind; f_err = err; f_sticky = sticky;
  n_ops = n_match = n_fired = 0; memset(opcount, 0, sizeof opcount);
  armed = kind != 0; observe = 1;
}
void dst_disarm(void) { armed = 0; observe = 0; }
long dst_fired(void) { return n_fired; }
long dst_ops(void) { return n_ops; }
long dst_matched(void) { return n_match; }
long dst_opcount(int i) { return opcount[i & 7]; }
int dst_present(void) { return 1; }

static int under(const char *p) {
  if (!rootlen || !p) return 0;
  return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
static int tracked_path(int dirfd, const char *p) {
  if (!rootlen || !p) return 0;
  if (p[0] == '/') return under(p);
  if (dirfd == AT_FDCWD) {
    char b[2048];
    if (!getcwd(b, sizeof b)) return 0;
    return under(b);
  }
  return dirfd >= 0 && dirfd < MAXFD && tracked[dirfd] != 0;
}
static int bit(int cls) { int i = 0; while (!(cls & 1)) { cls >>= 1; i++; } return i; }
/* returns the fault kind to apply to this operation, 0 for none */
static int hit(int cls) {
  if (!observe) return 0;
  n_ops++; opcount[bit(cls)]++;
  if (!armed || !(cls & f_mask)) return 0;
  long k = n_match++;
  if (k == f_nth || (f_sticky && k > f_nth)) {
    n_fired++;
    if (f_kind == K_CRASH) _exit(77);
    return f_kind;
  }
  return 0;
}
static int ftrack(FILE *f) {
  for (int i = 0; i < MAXFILE; i++) if (tfiles[i] == f) return 1;
  return 0;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode,
                   int (*real)(int, const char *, int, ...)) {
  int t = tracked_path(dirfd, path);
  if (t) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    if (hit(w ? OPEN_W : OPEN_R)) { errno = f_err; return -1; }
  }
  int fd = real(dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = t ? ((flags & O_DIRECTORY) ? 2 : 1) : 0;
  return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int openat(int d, const char *p, int flags, ...) { GETMODE REAL(openat); return do_open(d, p, flags, mode, real); }
int openat64(int d, const char *p, int flags, ...) { GETMODE REAL(openat64); return do_open(d, p, flags | O_LARGEFILE, mode, real); }
int open(const char *p, int flags, ...) { GETMODE REAL(openat); return do_open(AT_FDCWD, p, flags, mode, real); }
int open64(const char *p, int flags, ...) { GETMODE REAL(openat64); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode, real); }

#define TRK(fd) ((fd) >= 0 && (fd) < MAXFD && tracked[fd] == 1)
ssize_t read(int fd, void *b, size_t n) {
  REAL(read);
  if (TRK(fd) && n > 0) { int k = hit(READ);
    if (k == K_SHORT) return real(fd, b, n > 1 ? n / 2 : n);
    if (k) { errno = f_err; return -1; } }
  return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  REAL(pread64);
  if (TRK(fd) && n > 0) { int k = hit(READ);
    if (k == K_SHORT) return real(fd, b, n > 1 ? n / 2 : n, o);
    if (k) { errno = f_err; return -1; } }
  return real(fd, b, n, o);
}
static ssize_t wfault(int k, int fd, const void *b, size_t n, ssize_t (*real)(int, const void *, size_t)) {
  switch (k) {
    case K_SHORT: return real(fd, b, n > 1 ? n / 2 : n);
    case K_LOST: return (ssize_t)n;
    case K_TORN: if (n > 1) { ssize_t r = real(fd, b, n / 2); (void)r; } errno = f_err; return -1;
    case K_TORNCRASH: if (n > 1) { ssize_t r = real(fd, b, n / 2); (void)r; } _exit(77);
  }
  errno = f_err; return -1;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (TRK(fd) && n > 0) { int k = hit(WRITE); if (k) return wfault(k, fd, b, n, real); }
  return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (TRK(fd) && n > 0) { int k = hit(WRITE); if (k) { errno = f_err; return -1; } }
  return real(fd, b, n, o);
}
int close(int fd) {
  REAL(close);
  int t = TRK(fd);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
  if (t) { int k = hit(CLOSE); if (k) { real(fd); errno = f_err; return -1; } }
  return real(fd);
}
int mkdir(const char *p, mode_t m) {
  REAL(mkdir);
  if (tracked_path(AT_FDCWD, p) && hit(MKDIR)) { errno = f_err; return -1; }
  return real(p, m);
}
int unlink(const char *p) {
  REAL(unlink);
  if (tracked_path(AT_FDCWD, p) && hit(UNLINK)) { errno = f_err; return -1; }
  return real(p);
}
int unlinkat(int d, const char *p, int fl) {
  REAL(unlinkat);
  if (tracked_path(d, p) && hit(UNLINK)) { errno = f_err; return -1; }
  return real(d, p, fl);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  if (tracked_path(AT_FDCWD, b) && hit(RENAME)) { errno = f_err; return -1; }
  return real(a, b);
}
static FILE *do_fopen(const char *p, const char *m, FILE *(*real)(const char *, const char *)) {
  int t = tracked_path(AT_FDCWD, p);
  if (t) { int w = strpbrk(m, "wa+") != 0; if (hit(w ? OPEN_W : OPEN_R)) { errno = f_err; return 0; } }
  FILE *f = real(p, m);
  if (f && t) for (int i = 0; i < MAXFILE; i++) if (!tfiles[i]) { tfiles[i] = f; break; }
  return f;
}
FILE *fopen(const char *p, const char *m) { REAL(fopen); return do_fopen(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return do_fopen(p, m, real); }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  REAL(fread);
  if (rootlen && observe && ftrack(f)) { int k = hit(READ);
    if (k == K_SHORT) return real(b, s, n > 1 ? n / 2 : n, f);
    if (k) { errno = f_err; return 0; } }
  return real(b, s, n, f);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(fwrite);
  if (rootlen && observe && ftrack(f)) { int k = hit(WRITE);
    if (k == K_LOST) return n;
    if (k == K_TORNCRASH) { real(b, s, n / 2, f); fflush(f); _exit(77); }
    if (k == K_SHORT || k == K_TORN) { size_t r = real(b, s, n / 2, f); errno = f_err; return r; }
    if (k) { errno = f_err; return 0; } }
  return real(b, s, n, f);
}
int fclose(FILE *f) {
  REAL(fclose);
  for (int i = 0; i < MAXFILE; i++) if (tfiles[i] == f) { tfiles[i] = 0;
    if (hit(CLOSE)) { real(f); errno = f_err; return EOF; } break; }
  return real(f);
}
