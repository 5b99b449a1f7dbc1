/* A system entropy source that follows a script.  Every call that can fail consumes one
   entry: 0 works; 1 fails; k + 2 (reads) delivers k bytes only.  The byte at place p of
   what the source delivers is p * 7 + (p / 256) * 13. */
#ifndef VP_ENTROPY_SHIM
#define VP_ENTROPY_SHIM
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#define VP_N 4096
#define VP_W __attribute__((weak))
VP_W int vp_script[VP_N];
VP_W int vp_next = 0;       /* next entry of the script */
VP_W int vp_faults = 0;     /* entries other than 0 consumed */
VP_W int vp_used = 0;       /* calls made */
VP_W int vp_pos = 0;        /* bytes delivered */
VP_W int vp_open = 0;       /* descriptors open */
VP_W int vp_bad = 0;        /* descriptors closed or read that were not open */
static unsigned char vp_fds[64];
static int vp_take(void) {
  int v = vp_next < VP_N ? vp_script[vp_next++] : 0;
  vp_used++;
  if (v) vp_faults++;
  return v;
}
static long vp_deliver(void *dest, size_t n, int v) {
  size_t i;
  if (v == 1) { errno = EIO; return -1; }
  if (v > 1 && (size_t)(v - 2) < n) n = v - 2;
  for (i = 0; i < n; i++, vp_pos++)
    ((unsigned char *)dest)[i] = (unsigned char)(vp_pos * 7 + (vp_pos / 256) * 13);
  return (long)n;
}
static int vp_open_(const char *path, ...) {
  int i;
  (void)path;
  if (vp_take() == 1) { errno = EMFILE; return -1; }
  for (i = 0; i < 64; i++) if (!vp_fds[i]) break;
  if (i == 64) { errno = EMFILE; return -1; }
  vp_fds[i] = 1; vp_open++;
  return 1000 + i;
}
static int vp_valid(int fd) { int ok = fd >= 1000 && fd < 1064 && vp_fds[fd - 1000]; if (!ok) vp_bad++; return ok; }
static long vp_read(int fd, void *dest, size_t n) {
  if (!vp_valid(fd)) { errno = EBADF; return -1; }
  return vp_deliver(dest, n, vp_take());
}
static int vp_close(int fd) {
  if (!vp_valid(fd)) { errno = EBADF; return -1; }
  vp_fds[fd - 1000] = 0; vp_open--;
  if (vp_take() == 1) { errno = EIO; return -1; }
  return 0;
}
static FILE *vp_fopen(const char *p, const char *m) { int fd = vp_open_(p); (void)m; return fd < 0 ? NULL : (FILE *)(long)fd; }
static size_t vp_fread(void *d, size_t s, size_t n, FILE *f) { long k = vp_read((int)(long)f, d, s * n); return k < 0 || !s ? 0 : (size_t)k / s; }
static int vp_fclose(FILE *f) { return vp_close((int)(long)f); }
static long vp_getrandom(void *d, size_t n, unsigned fl) { (void)fl; return vp_deliver(d, n, vp_take()); }
static int vp_getentropy(void *d, size_t n) { int v = vp_take(); if (v) { errno = EIO; return -1; } return vp_deliver(d, n, 0) == (long)n ? 0 : -1; }
#define open(...) vp_open_(__VA_ARGS__)
#define read(f, d, n) vp_read(f, d, n)
#define close(f) vp_close(f)
#define fopen(p, m) vp_fopen(p, m)
#define fread(d, s, n, f) vp_fread(d, s, n, f)
#define fclose(f) vp_fclose(f)
#define getrandom(d, n, f) vp_getrandom(d, n, f)
#define getentropy(d, n) vp_getentropy(d, n)
#endif
