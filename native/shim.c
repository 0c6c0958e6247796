/* Dies (like a crashed process) at the n-th change of a file under a marked directory,
   after the first `torn` bytes of it if it is a write. Loaded with LD_PRELOAD. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile long count = 0, stop_at = -1, torn = 0;
static char mark[256] = "";
static char kinds[65536];
static long lens[65536];

void shim_arm(const char *m, long n, long t) {
  strncpy(mark, m, sizeof mark - 1);
  count = 0; stop_at = n; torn = t;
}
void shim_disarm(void) { mark[0] = 0; }
long shim_count(void) { return count; }
char shim_kind(long i) { return kinds[i]; }
long shim_len(long i) { return lens[i]; }

static int hit_path(const char *p) { return mark[0] && p && strstr(p, mark) != NULL; }
static int hit_fd(int fd) {
  char l[64], b[4096];
  if (!mark[0] || fd < 3) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n < 0) return 0;
  b[n] = 0;
  return strstr(b, mark) != NULL;
}
/* 1: this change is the last */
static int step(char kind, long len) {
  long i = __sync_fetch_and_add(&count, 1);
  if (i < 65536) { kinds[i] = kind; lens[i] = len; }
  return i == stop_at;
}
#define REAL(name, ret, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static void die(void) { _exit(137); }
static size_t part(size_t n) { return torn < 0 ? (n > 0 ? n - 1 : 0) : ((size_t)torn < n ? (size_t)torn : n); }

ssize_t write(int fd, const void *b, size_t n) {
  REAL("write", ssize_t, int, const void *, size_t);
  if (hit_fd(fd) && step('w', n)) { size_t k = part(n); if (k) { ssize_t r = real(fd, b, k); (void)r; } die(); }
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL("pwrite", ssize_t, int, const void *, size_t, off_t);
  if (hit_fd(fd) && step('w', n)) { size_t k = part(n); if (k) { ssize_t r = real(fd, b, k, o); (void)r; } die(); }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL("pwrite64", ssize_t, int, const void *, size_t, off64_t);
  if (hit_fd(fd) && step('w', n)) { size_t k = part(n); if (k) { ssize_t r = real(fd, b, k, o); (void)r; } die(); }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL("writev", ssize_t, int, const struct iovec *, int);
  if (hit_fd(fd)) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    if (step('w', n)) {
      size_t k = part(n);
      for (int i = 0; i < c && k; i++) {
        size_t m = v[i].iov_len < k ? v[i].iov_len : k;
        struct iovec one = {v[i].iov_base, m};
        if (real(fd, &one, 1) < 0) break;
        k -= m;
      }
      die();
    }
  }
  return real(fd, v, c);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  REAL("sendfile64", ssize_t, int, int, off64_t *, size_t);
  if (hit_fd(out) && step('w', n)) { size_t k = part(n); if (k) real(out, in, o, k); die(); }
  return real(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  REAL("sendfile", ssize_t, int, int, off_t *, size_t);
  if (hit_fd(out) && step('w', n)) { size_t k = part(n); if (k) real(out, in, o, k); die(); }
  return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
  REAL("copy_file_range", ssize_t, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (hit_fd(out) && step('w', n)) { size_t k = part(n); if (k) real(in, io, out, oo, k, f); die(); }
  return real(in, io, out, oo, n, f);
}
#define OPENLIKE(fn) \
  int fn(const char *p, int fl, ...) { \
    REAL(#fn, int, const char *, int, ...); \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if ((fl & (O_CREAT | O_TRUNC)) && hit_path(p) && step('o', 0)) die(); \
    return real(p, fl, m); \
  }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(fn) \
  int fn(int d, const char *p, int fl, ...) { \
    REAL(#fn, int, int, const char *, int, ...); \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if ((fl & (O_CREAT | O_TRUNC)) && hit_path(p) && step('o', 0)) die(); \
    return real(d, p, fl, m); \
  }
OPENATLIKE(openat)
OPENATLIKE(openat64)
FILE *fopen(const char *p, const char *m) {
  REAL("fopen", FILE *, const char *, const char *);
  if ((strchr(m, 'w') || strchr(m, 'a')) && hit_path(p) && step('o', 0)) die();
  return real(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  REAL("fopen64", FILE *, const char *, const char *);
  if ((strchr(m, 'w') || strchr(m, 'a')) && hit_path(p) && step('o', 0)) die();
  return real(p, m);
}
int creat(const char *p, mode_t m) {
  REAL("creat", int, const char *, mode_t);
  if (hit_path(p) && step('o', 0)) die();
  return real(p, m);
}
int rename(const char *a, const char *b) {
  REAL("rename", int, const char *, const char *);
  if ((hit_path(a) || hit_path(b)) && step('r', 0)) die();
  return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
  REAL("renameat", int, int, const char *, int, const char *);
  if ((hit_path(a) || hit_path(b)) && step('r', 0)) die();
  return real(d, a, e, b);
}
int link(const char *a, const char *b) {
  REAL("link", int, const char *, const char *);
  if ((hit_path(a) || hit_path(b)) && step('l', 0)) die();
  return real(a, b);
}
int symlink(const char *a, const char *b) {
  REAL("symlink", int, const char *, const char *);
  if (hit_path(b) && step('l', 0)) die();
  return real(a, b);
}
int unlink(const char *p) {
  REAL("unlink", int, const char *);
  if (hit_path(p) && step('u', 0)) die();
  return real(p);
}
int unlinkat(int d, const char *p, int f) {
  REAL("unlinkat", int, int, const char *, int);
  if (hit_path(p) && step('u', 0)) die();
  return real(d, p, f);
}
int remove(const char *p) {
  REAL("remove", int, const char *);
  if (hit_path(p) && step('u', 0)) die();
  return real(p);
}
int ftruncate(int fd, off_t n) {
  REAL("ftruncate", int, int, off_t);
  if (hit_fd(fd) && step('t', 0)) die();
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
  REAL("ftruncate64", int, int, off64_t);
  if (hit_fd(fd) && step('t', 0)) die();
  return real(fd, n);
}
int truncate(const char *p, off_t n) {
  REAL("truncate", int, const char *, off_t);
  if (hit_path(p) && step('t', 0)) die();
  return real(p, n);
}
int mkdir(const char *p, mode_t m) {
  REAL("mkdir", int, const char *, mode_t);
  if (hit_path(p) && step('m', 0)) die();
  return real(p, m);
}
