/* callbacks with scripted values and a log of the calls, for UserBitGenerator.from_ctypes */
#include <stdint.h>
typedef struct { uint64_t *raw, *f64, *f32; double *fdbl; long pos[4]; char log[1 << 16]; long n; } script_t;
#define TAKE(i, f) script_t *s = (script_t *)p; if (s->n < (1 << 16)) s->log[s->n++] = (char)(i); return s->f[s->pos[i]++]
uint64_t next_raw(void *p) { TAKE(0, raw); }
uint64_t next_64(void *p) { TAKE(1, f64); }
uint32_t next_32(void *p) { TAKE(2, f32); }
double next_dbl(void *p) { TAKE(3, fdbl); }
