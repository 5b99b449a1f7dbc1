/* A processor that follows a script: the k-th execution of RDRAND delivers the word
   made of the 16-bit number k four times, or fails (as the hardware does, with 0). */
#ifndef VP_RDRAND_SHIM
#define VP_RDRAND_SHIM
#include <immintrin.h>
#define VP_N 65536
__attribute__((weak)) unsigned char vp_fail[VP_N];
__attribute__((weak)) unsigned vp_pos = 1;
static inline int vp_rdrand64(unsigned long long *p) {
  unsigned k = vp_pos++ & (VP_N - 1);
  if (vp_fail[k]) { *p = 0; return 0; }
  *p = (unsigned long long)k * 0x0001000100010001ULL;
  return 1;
}
static inline int vp_rdrand32(unsigned *p) {
  unsigned k = vp_pos++ & (VP_N - 1);
  if (vp_fail[k]) { *p = 0; return 0; }
  *p = k * 0x00010001U;
  return 1;
}
static inline int vp_rdrand16(unsigned short *p) {
  unsigned k = vp_pos++ & (VP_N - 1);
  if (vp_fail[k]) { *p = 0; return 0; }
  *p = (unsigned short)k;
  return 1;
}
#define _rdrand64_step(p) vp_rdrand64((unsigned long long *)(p))
#define _rdrand32_step(p) vp_rdrand32((unsigned *)(p))
#define _rdrand16_step(p) vp_rdrand16((unsigned short *)(p))
#define __builtin_ia32_rdrand64_step(p) vp_rdrand64((unsigned long long *)(p))
#define __builtin_ia32_rdrand32_step(p) vp_rdrand32((unsigned *)(p))
#endif
