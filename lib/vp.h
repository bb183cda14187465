/* Vocabulary shared by every contract harness.
 *
 * The same harness file is read three ways:
 *   - by goto-cc/cbmc: nd_*() are unconstrained values, VP_ASSUME is the
 *     precondition of the function under contract, VP_ASSERT a postcondition;
 *   - by gcc with -DVP_NATIVE: nd_*() return the values of a recorded
 *     counterexample, so the real code is run on the verifier's input;
 *   - VP_REACH marks a point that must be reachable (guard against vacuity).
 */
#ifndef VP_LIB_H
#define VP_LIB_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>

typedef unsigned char vp_u8;
typedef unsigned short vp_u16;
typedef unsigned int vp_u32;
typedef unsigned long long vp_u64;

#ifdef VP_NATIVE
#include <unistd.h>
static FILE *vp_in;
static vp_u64 vp_next(void)
{
  unsigned long long v = 0;
  if (!vp_in || fscanf(vp_in, "%llx", &v) != 1)
    return 0;
  return v;
}
#define VP_ASSUME(c) do { if (!(c)) { fprintf(stderr, "VP: precondition not met: %s\n", #c); _exit(77); } } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) { fprintf(stderr, "VP: FAILED: %s (%s)\n", msg, #c); fflush(stderr); _exit(1); } } while (0)
#define VP_REACH(l) do { } while (0)
static inline vp_u8 nd_u8(void) { return (vp_u8) vp_next(); }
static inline vp_u16 nd_u16(void) { return (vp_u16) vp_next(); }
static inline vp_u32 nd_u32(void) { return (vp_u32) vp_next(); }
static inline vp_u64 nd_u64(void) { return vp_next(); }
static inline int nd_int(void) { return (int)(unsigned)vp_next(); }
static inline bool nd_bool(void) { return vp_next() & 1; }
static inline float nd_float(void) { union { vp_u32 u; float f; } x; x.u = (vp_u32) vp_next(); return x.f; }
static inline double nd_double(void) { union { vp_u64 u; double f; } x; x.u = vp_next(); return x.f; }
void VP_ENTRY(void);
int main(int argc, char **argv)
{
  if (argc > 1) vp_in = fopen(argv[1], "r");
  VP_ENTRY();
  return 0;
}
#else
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert(c, msg)
#define VP_REACH(l) __CPROVER_assert(0, "VP_REACH " l)
vp_u64 vp_log;
vp_u8 nondet_vp_u8(void);
vp_u16 nondet_vp_u16(void);
vp_u32 nondet_vp_u32(void);
vp_u64 nondet_vp_u64(void);
int nondet_vp_int(void);
_Bool nondet_vp_bool(void);
float nondet_vp_float(void);
double nondet_vp_double(void);
static inline vp_u8 nd_u8(void) { vp_u8 v = nondet_vp_u8(); vp_log = v; return v; }
static inline vp_u16 nd_u16(void) { vp_u16 v = nondet_vp_u16(); vp_log = v; return v; }
static inline vp_u32 nd_u32(void) { vp_u32 v = nondet_vp_u32(); vp_log = v; return v; }
static inline vp_u64 nd_u64(void) { vp_u64 v = nondet_vp_u64(); vp_log = v; return v; }
static inline int nd_int(void) { int v = nondet_vp_int(); vp_log = (vp_u32)v; return v; }
static inline bool nd_bool(void) { bool v = nondet_vp_bool(); vp_log = v; return v; }
static inline float nd_float(void) { union { vp_u32 u; float f; } x; x.u = nondet_vp_u32(); vp_log = x.u; return x.f; }
static inline double nd_double(void) { union { vp_u64 u; double f; } x; x.u = nondet_vp_u64(); vp_log = x.u; return x.f; }
#endif

#define VP_FEQ(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
#endif
