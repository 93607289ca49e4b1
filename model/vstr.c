/* Models of the memory functions, compiled for CBMC only (the native replay uses libc).
 *
 * Exact model: a byte loop, unwound as far as the configuration says (CBMC's built-in array_copy/array_set
 * encodings of a symbolic-length memcpy are far more expensive than a bounded loop).
 *
 * Tracked model (-DVTRACK), for long buffers: the whole source and destination ranges are checked to be
 * readable/writable, the first VTRACK_HEAD bytes are transferred exactly, and of the rest only the byte at the
 * unconstrained index vtrack is; a harness then asserts about the byte at vtrack, i.e. about every byte.
 */
#ifdef VRT_CBMC
#include <stddef.h>
#ifndef VTRACK
void *memcpy(void *dst, const void *src, size_t n)
{
    char *d = dst; const char *s = src;
    for (size_t i = 0; i < n; i++) d[i] = s[i];
    return dst;
}
void *memset(void *dst, int c, size_t n)
{
    char *d = dst;
    unsigned long *w = dst;
    /* clearing whole words keeps pointer fields recognisably NULL for constant propagation */
    if (c == 0 && (n & 7) == 0) { for (size_t i = 0; i < n / 8; i++) w[i] = 0; }
    else for (size_t i = 0; i < n; i++) d[i] = (char)c;
    return dst;
}
#else
#ifndef VTRACK_HEAD
#define VTRACK_HEAD 8
#endif
size_t vtrack;
void *memcpy(void *dst, const void *src, size_t n)
{
    char *d = dst; const char *s = src;
    if (n == 0) return dst;
    __CPROVER_assert(__CPROVER_r_ok(src, n), "memcpy source range readable");
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memcpy destination range writable");
    for (size_t i = 0; i < VTRACK_HEAD; i++) if (i < n) d[i] = s[i];
    if (vtrack >= VTRACK_HEAD && vtrack < n) d[vtrack] = s[vtrack];
    return dst;
}
/* constant-size memset of structures stays exact through the 96-byte head */
void *memset(void *dst, int c, size_t n)
{
    char *d = dst;
    if (n == 0) return dst;
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memset destination range writable");
    for (size_t i = 0; i < 96; i++) if (i < n) d[i] = (char)c;
    if (vtrack >= 96 && vtrack < n) d[vtrack] = (char)c;
    return dst;
}
#endif
#endif
