/* Ends the process at a chosen file operation below a directory (for C09). Preloaded; armed through killat_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static char prefix[4096];
static int armed = 0, half = 0, logfd = -1;
static long count = 0, target = -1;
void killat_arm(const char *p, long n, int h, int fd) { strncpy(prefix, p, 4095); target = n; half = h; count = 0; logfd = fd; armed = 1; }
long killat_count(void) { return count; }
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
static int below(const char *p) {
  char abs[8192];
  if (!armed || !p) return 0;
  if (p[0] != '/') { if (!getcwd(abs, 4096)) return 0; strcat(abs, "/"); strncat(abs, p, 4000); p = abs; }
  return strncmp(p, prefix, strlen(prefix)) == 0;
}
static int fdbelow(int fd) {
  char link[64], buf[4096]; ssize_t n;
  if (!armed) return 0;
  snprintf(link, 64, "/proc/self/fd/%d", fd);
  n = readlink(link, buf, 4095);
  if (n < 0) return 0;
  buf[n] = 0;
  return strncmp(buf, prefix, strlen(prefix)) == 0;
}
/* 0: go on; 1: die here; 2: die after half of it */
static int event(const char *kind, long size) {
  count++;
  if (logfd >= 0) { char b[64]; int n = snprintf(b, 64, "%s %ld\n", kind, size); REAL(write)(logfd, b, n); }
  if (count != target) return 0;
  return half ? 2 : 1;
}
static void die(void) { _exit(137); }
ssize_t write(int fd, const void *b, size_t n) {
  if (armed && fd != logfd && fdbelow(fd)) { int e = event("write", n); if (e == 2) REAL(write)(fd, b, n / 2); if (e) die(); }
  return REAL(write)(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (fdbelow(fd)) { int e = event("write", n); if (e == 2) REAL(pwrite)(fd, b, n / 2, o); if (e) die(); }
  return REAL(pwrite)(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (fdbelow(fd)) { int e = event("write", n); if (e == 2) REAL(pwrite64)(fd, b, n / 2, o); if (e) die(); }
  return REAL(pwrite64)(fd, b, n, o);
}
#define OPEN(name) int name(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
  if ((fl & (O_CREAT | O_TRUNC)) && below(p)) { if (event("open", 0)) die(); } return REAL(name)(p, fl, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
  if ((fl & (O_CREAT | O_TRUNC)) && below(p)) { if (event("open", 0)) die(); } return REAL(name)(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)
int unlink(const char *p) { if (below(p) && event("unlink", 0)) die(); return REAL(unlink)(p); }
int remove(const char *p) { if (below(p) && event("unlink", 0)) die(); return REAL(remove)(p); }
int unlinkat(int d, const char *p, int f) { if (below(p) && event("unlink", 0)) die(); return REAL(unlinkat)(d, p, f); }
int rename(const char *p, const char *q) { if (below(q) && event("rename", 0)) die(); return REAL(rename)(p, q); }
int renameat(int d, const char *p, int d2, const char *q) { if (below(q) && event("rename", 0)) die(); return REAL(renameat)(d, p, d2, q); }
int mkdir(const char *p, mode_t m) { if (below(p) && event("mkdir", 0)) die(); return REAL(mkdir)(p, m); }
int ftruncate(int fd, off_t n) { if (fdbelow(fd) && event("truncate", n)) die(); return REAL(ftruncate)(fd, n); }
int ftruncate64(int fd, off64_t n) { if (fdbelow(fd) && event("truncate", n)) die(); return REAL(ftruncate64)(fd, n); }
