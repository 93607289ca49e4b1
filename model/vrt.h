/* vrt.h - verification runtime shared by every harness.
 *
 * The same harness is compiled twice (CBMC or, for the string code of the proxy, the path-wise executor sym.py): by goto-cc (symbolic: nd_*() returns an unconstrained value
 * which is also recorded as an "input" step of a counterexample trace) and, when CBMC returns a
 * counterexample, by gcc with ASan/UBSan (native replay: nd_*() returns the recorded values in order).
 */
#ifndef VRT_H
#define VRT_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef VRT_CBMC
#  define VRT_ASSUME(c)       __CPROVER_assume(c)
#  define VRT_ASSERT(c, msg)  __CPROVER_assert((c), "VP: " msg)
#  ifdef VRT_WITNESS
#    define VRT_WITNESS_POINT(msg)  __CPROVER_assert(0, "WITNESS: " msg)
#  else
#    define VRT_WITNESS_POINT(msg)  ((void)0)
#  endif
static inline uint8_t nd_u8(void)      { uint8_t v;  __CPROVER_input("vrt", v); return v; }
static inline uint16_t nd_u16(void)    { uint16_t v; __CPROVER_input("vrt", v); return v; }
static inline uint32_t nd_u32(void)    { uint32_t v; __CPROVER_input("vrt", v); return v; }
static inline uint64_t nd_u64(void)    { uint64_t v; __CPROVER_input("vrt", v); return v; }
/* declare NAME as a char array of N unconstrained bytes */
#  define VRT_BYTES(name, N) \
     struct { char b[N]; } name##_vs; __CPROVER_input("vrt", name##_vs); char *name = name##_vs.b
#elif defined(VRT_SYM)
uint8_t vrt_sym_u8(void); uint16_t vrt_sym_u16(void); uint32_t vrt_sym_u32(void); uint64_t vrt_sym_u64(void);
void vrt_sym_assume(int c); void vrt_sym_assert(int c, const char *msg); void vrt_sym_witness(const char *msg);
#  define VRT_ASSUME(c)       vrt_sym_assume(!!(c))
#  define VRT_ASSERT(c, msg)  vrt_sym_assert(!!(c), msg)
#  define VRT_WITNESS_POINT(msg)  vrt_sym_witness(msg)
static inline uint8_t nd_u8(void)      { return vrt_sym_u8(); }
static inline uint16_t nd_u16(void)    { return vrt_sym_u16(); }
static inline uint32_t nd_u32(void)    { return vrt_sym_u32(); }
static inline uint64_t nd_u64(void)    { return vrt_sym_u64(); }
#  define VRT_BYTES(name, N) \
     struct { char b[N]; } name##_vs; for (size_t vrt_i = 0; vrt_i < (N); vrt_i++) name##_vs.b[vrt_i] = (char)vrt_sym_u8(); \
     char *name = name##_vs.b
#else
#  include <stdio.h>
void vrt_assume_failed(const char *file, int line);
void vrt_assert_failed(const char *msg, const char *file, int line);
uint64_t vrt_next(void);
#  define VRT_ASSUME(c)       do { if (!(c)) vrt_assume_failed(__FILE__, __LINE__); } while (0)
#  define VRT_ASSERT(c, msg)  do { if (!(c)) vrt_assert_failed(msg, __FILE__, __LINE__); } while (0)
#  define VRT_WITNESS_POINT(msg)  fprintf(stderr, "WITNESS: %s\n", msg)
static inline uint8_t nd_u8(void)      { return (uint8_t)vrt_next(); }
static inline uint16_t nd_u16(void)    { return (uint16_t)vrt_next(); }
static inline uint32_t nd_u32(void)    { return (uint32_t)vrt_next(); }
static inline uint64_t nd_u64(void)    { return (uint64_t)vrt_next(); }
#  define VRT_BYTES(name, N) \
     struct { char b[N]; } name##_vs; for (size_t vrt_i = 0; vrt_i < (N); vrt_i++) name##_vs.b[vrt_i] = (char)vrt_next(); \
     char *name = name##_vs.b
#endif
static inline int nd_int(void)         { return (int)nd_u32(); }
static inline unsigned nd_range(unsigned lo, unsigned hi) { unsigned v = nd_u32(); VRT_ASSUME(v >= lo && v <= hi); return v; }
static inline int nd_bool(void)        { uint8_t v = nd_u8(); VRT_ASSUME(v <= 1); return v; }
void harness(void);
#endif
