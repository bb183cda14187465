/* fprintf and fputs of the writers as calls with a fixed number of values, so
 * that a contract can be put on them: vp_out(format, v0 .. v7). */
#ifndef VP_TEXT_H
#define VP_TEXT_H
#ifdef VP_INTS /* whole numbers are kept as such */
typedef struct { double d; const char *s; long i; } vp_val;
static inline vp_val vp_int(long i) { vp_val v; v.d = 0; v.i = i; v.s = ""; return v; }
#else
typedef struct { double d; const char *s; } vp_val;
#define vp_int vp_num
#endif
static inline vp_val vp_num(double d) { vp_val v; v.d = d; v.s = ""; return v; }
static inline vp_val vp_str(const char *s) { vp_val v; v.d = 0; v.s = s; return v; }
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7);
#define VPV(a) _Generic((a), float: vp_num, double: vp_num, int: vp_int, unsigned: vp_int, long: vp_int, unsigned long: vp_int, unsigned char: vp_int, short: vp_int, unsigned short: vp_int, default: vp_str)(a)
#define VPZ vp_num(0)
#define VP_CNT_(a1, a2, a3, a4, a5, a6, a7, a8, a9, n, ...) n
#define VP_CNT(...) VP_CNT_(__VA_ARGS__, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_(a, b)
#define vp_P1(f) vp_out(f, VPZ, VPZ, VPZ, VPZ, VPZ, VPZ, VPZ, VPZ)
#define vp_P2(f, a) vp_out(f, VPV(a), VPZ, VPZ, VPZ, VPZ, VPZ, VPZ, VPZ)
#define vp_P3(f, a, b) vp_out(f, VPV(a), VPV(b), VPZ, VPZ, VPZ, VPZ, VPZ, VPZ)
#define vp_P4(f, a, b, c) vp_out(f, VPV(a), VPV(b), VPV(c), VPZ, VPZ, VPZ, VPZ, VPZ)
#define vp_P5(f, a, b, c, d) vp_out(f, VPV(a), VPV(b), VPV(c), VPV(d), VPZ, VPZ, VPZ, VPZ)
#define vp_P6(f, a, b, c, d, e) vp_out(f, VPV(a), VPV(b), VPV(c), VPV(d), VPV(e), VPZ, VPZ, VPZ)
#define vp_P7(f, a, b, c, d, e, g) vp_out(f, VPV(a), VPV(b), VPV(c), VPV(d), VPV(e), VPV(g), VPZ, VPZ)
#define vp_P8(f, a, b, c, d, e, g, h) vp_out(f, VPV(a), VPV(b), VPV(c), VPV(d), VPV(e), VPV(g), VPV(h), VPZ)
#define vp_P9(f, a, b, c, d, e, g, h, i) vp_out(f, VPV(a), VPV(b), VPV(c), VPV(d), VPV(e), VPV(g), VPV(h), VPV(i))
#define VP_PRINTF(file, ...) VP_CAT(vp_P, VP_CNT(__VA_ARGS__))(__VA_ARGS__)
/* "do { } while (0)" of the output macros is not a loop; the condition is checked
 * to be constant zero (define VP_FLAT around the writer: #define do VP_DO, #define while VP_WHILE) */
#define VP_DO ({
#define VP_WHILE(c) ; VP_ASSERT(!(c), "only macros use do-while here"); })
#endif
