/* P28: ILDA.  The text is output-ild.c; fwrite is a recorder. */
#include "vp.h"
#include "types.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "spline.h"
unsigned char r_b[200]; int r_n;
size_t vp_put(const void *p, size_t s, size_t n, FILE *f) { unsigned i; VP_ASSERT(s == 1 && n <= 24 && r_n + n <= 200, "few bytes at a time"); for (i = 0; i < n; i++) r_b[r_n + i] = ((const unsigned char *)p)[i]; r_n += n; return n; }
static int vp_quiet(const char *f, ...) { return 0; }
int vp_name(char *s, size_t n, const char *f, int v) { static const char t[] = "Frame #0000     "; int i; VP_ASSERT(n == 17 && v == 0, "the name of the first frame"); for (i = 0; i < 17; i++) s[i] = t[i]; return 16; }
#define printf vp_quiet
#define fwrite vp_put
#define snprintf vp_name
#include "output-ild.c"
#undef snprintf
#undef fwrite
#undef printf
/* the headers, for any number of points */
void h_headers(void)
{
  LaserFrame f; unsigned n = nd_u32(); r_n = 0; f.count = n; f.point_first = NULL; VP_ASSUME(n <= 0x0fffffff);
  writeILDATrueColor(NULL, &f);
  VP_ASSERT(r_n == 16 && r_b[0] == 'I' && r_b[1] == 'L' && r_b[2] == 'D' && r_b[3] == 'A' && r_b[4] == 0 && r_b[5] == 0 && r_b[6] == 0 && r_b[7] == 3, "the colors are announced");
  VP_ASSERT(((unsigned)r_b[8] << 24 | r_b[9] << 16 | r_b[10] << 8 | r_b[11]) == 3 * n + 4 && ((unsigned)r_b[12] << 24 | r_b[13] << 16 | r_b[14] << 8 | r_b[15]) == n, "the colors are counted");
  r_n = 0; VP_ASSUME(n <= 65535);
  writeILDAFrameHeader(NULL, &f, 1, 0, 1);
  VP_ASSERT(r_n == 32 && r_b[0] == 'I' && r_b[3] == 'A' && r_b[6] == 0 && r_b[7] == 1 && r_b[8] == 'F' && r_b[14] == '#', "the frame is announced");
  VP_ASSERT((r_b[24] << 8 | r_b[25]) == (int)n && r_b[26] == 0 && r_b[27] == 0 && r_b[28] == 0 && r_b[29] == 1 && r_b[30] == 0 && r_b[31] == 0, "the points are counted");
  r_n = 0;
  writeILDAFrameHeader(NULL, NULL, 1, 0, 1);
  VP_REACH("end");
  VP_ASSERT(r_n == 32 && r_b[7] == 1 && r_b[8] == ' ' && r_b[23] == ' ' && r_b[24] == 0 && r_b[25] == 0, "the file ends with an empty frame");
}
/* a point: any values, last or not */
int g_ci; unsigned char g_cr, g_cg, g_cb;
int vp_match(unsigned char r, unsigned char g, unsigned char b) { g_cr = r; g_cg = g; g_cb = b; g_ci = nd_u8(); return g_ci; }
void h_points(void)
{
  LaserFrame f; LaserPoint p[2]; int i; bool two = nd_bool(); r_n = 0;
  for (i = 0; i < 2; i++) { p[i].x = (short)nd_u16(); p[i].y = (short)nd_u16(); p[i].z = 0; p[i].r = nd_u8(); p[i].g = nd_u8(); p[i].b = nd_u8(); p[i].attrib = nd_bool(); }
  p[0].next = two ? &p[1] : NULL; p[1].next = NULL; f.point_first = p; f.count = two ? 2 : 1; f.point_last = two ? &p[1] : p;
  writeILDAFrame(NULL, &f, 1);
  VP_REACH("end");
  VP_ASSERT(r_n == 6 * f.count, "a point is six bytes");
  for (i = 0; i < f.count; i++) {
    unsigned char *q = r_b + 6 * i; bool dark = !(p[i].r || p[i].g || p[i].b) || p[i].attrib;
    VP_ASSERT((short)(q[0] << 8 | q[1]) == p[i].x && (short)(q[2] << 8 | q[3]) == p[i].y, "a point is where it is");
    VP_ASSERT(q[4] == ((dark ? 0x40 : 0) | (i == f.count - 1 ? 0x80 : 0)), "a point is blanked or not, and the last one marked");
  }
  VP_ASSERT(two || (p[0].r || p[0].g || p[0].b ? g_cr == p[0].r && g_cg == p[0].g && g_cb == p[0].b && r_b[5] == g_ci : r_b[5] == 0), "a point has its color");
  VP_ASSERT(!two || !(p[1].r == p[0].r && p[1].g == p[0].g && p[1].b == p[0].b) || r_b[11] == r_b[5], "points of one color have one color");
  VP_ASSERT(!two || (p[1].r == p[0].r && p[1].g == p[0].g && p[1].b == p[0].b) || (g_cr == p[1].r && g_cg == p[1].g && g_cb == p[1].b && r_b[11] == g_ci), "a point has its own color");
  r_n = 0;
  writeILDATrueColor(NULL, &f);
  for (i = 0; i < f.count; i++) VP_ASSERT(r_b[16 + 3 * i] == p[i].r && r_b[17 + 3 * i] == p[i].g && r_b[18 + 3 * i] == p[i].b, "a point has its true color");
}
