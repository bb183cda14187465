/* P27: UGS.  Any picture: the points of the outlines, and the box around them.
 * Extraction: elements of the picture come from vp_ghost.h, fprintf is a recorder, lround is any function,
 * and cubic_to_quadratic stands for any division of a curve.  Everything else is output-ugs.c. */
#include "types.h"
#include "spline.h"
static void vp_at_list(unsigned n), vp_at_spline(unsigned n, spline_type *e);
#define VP_AT_LIST(n) vp_at_list(n)
#define VP_AT_SPLINE(n, e) vp_at_spline(n, e)
#include "vp_ghost.h"
#define VP_INTS
#include "vp_text.h"
#include <math.h>
/* dots to come: kind 1 on, 2 off */
unsigned g_lists, g_spl; int g_state, g_k, g_n, g_kind[4]; long g_px[4], g_py[4]; double g_fx, g_fy; bool g_need;
long g_x1, g_x2, g_y1, g_y2;
/* lround: some whole number, the same for the same value */
long __CPROVER_uninterpreted_round(double);
long vp_round(double d) { long r = __CPROVER_uninterpreted_round(d == 0 ? 0 : d); VP_ASSUME(r >= -2000000 && r <= 2000000); return r; }
static void seen(long x, long y) { if (x < g_x1) g_x1 = x; if (x > g_x2) g_x2 = x; if (y < g_y1) g_y1 = y; if (y > g_y2) g_y2 = y; }
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
  if (f[1] == 'c') { VP_ASSERT(g_state == 0, "the contour begins"); g_state = 1; }
  else if (f[1] == 'e') { VP_ASSERT(g_state == 1 && g_lists == vp_nlists, "the contour ends when all is written"); g_state = 3; }
  else if (f[2] == 'p') { VP_ASSERT(g_state == 1 && vp_li == (int)g_lists - 1, "a path begins"); g_state = 2; }
  else if (f[3] == 'd') {
    VP_ASSERT(g_state == 2 && !g_need && g_k < g_n && g_kind[g_k & 3] == (f[8] == 'n' ? 1 : 2) && v0.i == g_px[g_k & 3] && v1.i == g_py[g_k & 3], "the point called for is written"); g_k++;
  } else if (f[2] == 'e') { VP_ASSERT(g_state == 2 && !g_need && g_k == g_n && g_spl == vp_cur.length, "a path ends when all is written"); g_state = 1; }
  else VP_ASSERT(0, "known text");
}
#define lround vp_round
#define fprintf VP_PRINTF
#include "output-ugs.c"
#undef fprintf
#undef lround
static void dot(int kind, long x, long y) { g_kind[g_n & 3] = kind; g_px[g_n & 3] = x; g_py[g_n & 3] = y; g_n++; }
static void vp_at_list(unsigned n)
{
  VP_ASSERT(n == g_lists && g_state == 1 && (n == 0 || g_spl == vp_prev.length), "the path before is complete");
  g_lists++; g_spl = 0; g_k = g_n = 0; g_need = 0;
  g_fx = vp_first.v[0].x + ugs_left_bearing; g_fy = vp_first.v[0].y + ugs_descend; long x = vp_round(g_fx), y = vp_round(g_fy);
  dot(1, x, y); seen(x, y);
}
static void vp_at_spline(unsigned n, spline_type *e)
{
  double fx = e->v[3].x + ugs_left_bearing, fy = e->v[3].y + ugs_descend; long x = vp_round(fx), y = vp_round(fy);
  if (n != g_spl || g_state == 1) return;
  VP_ASSERT(g_k == g_n && !g_need, "what was read before is written");
  g_k = g_n = 0; g_spl++;
  if (e->degree == LINEARTYPE) { if (x != vp_round(g_fx) || y != vp_round(g_fy)) dot(1, x, y); seen(x, y); g_fx = fx; g_fy = fy; }
  else g_need = 1;
}
double nd_pos(void) { double d = nd_double(); VP_ASSUME(d >= -1e6 && d <= 1e6); return d; }
void vp_divide(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy, double *fx, double *fy, double *ex, double *ey, double *gx, double *gy)
{
  spline_type *e = g_spl > 1 ? &vp_spl : &vp_first; long x, y, mx, my, ox = vp_round(g_fx), oy = vp_round(g_fy), nx, ny;
  VP_ASSERT(g_need && bx == e->v[1].x + ugs_left_bearing && by == e->v[1].y + ugs_descend && cx == e->v[2].x + ugs_left_bearing && cy == e->v[2].y + ugs_descend && dx == e->v[3].x + ugs_left_bearing && dy == e->v[3].y + ugs_descend, "a curve has its points");
  VP_ASSERT(ax == g_fx && ay == g_fy, "a curve starts where the path is");
  g_need = 0; *fx = nd_pos(); *fy = nd_pos(); *ex = nd_pos(); *ey = nd_pos(); *gx = nd_pos(); *gy = nd_pos();
  mx = vp_round(*ex); my = vp_round(*ey); x = vp_round(*fx); y = vp_round(*fy); seen(x, y);
  if (!(x == ox && y == oy) && !(x == mx && y == my)) dot(2, x, y);
  dot(1, mx, my); seen(mx, my);
  g_fx = dx; g_fy = dy; nx = vp_round(dx); ny = vp_round(dy); x = vp_round(*gx); y = vp_round(*gy); seen(x, y);
  if (!(x == mx && y == my) && !(x == nx && y == ny)) dot(2, x, y);
  dot(1, nx, ny); seen(nx, ny);
}
void h_ugs(void)
{
  spline_list_array_type shape;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000); vp_li = -1; g_lists = g_spl = 0; g_state = 0; g_k = g_n = 0; g_need = 0;
  ugs_left_bearing = 0; ugs_descend = 0;
  lowerx = nd_int(); lowery = nd_int(); upperx = nd_int(); uppery = nd_int(); VP_ASSUME(lowerx >= -10000000 && lowery >= -10000000 && upperx <= 10000000 && uppery <= 10000000);
  g_x1 = lowerx; g_x2 = upperx; g_y1 = lowery; g_y2 = uppery;
  shape.data = NULL; shape.length = vp_nlists;
  output_splines(NULL, shape, 0);
  VP_REACH("end");
  VP_ASSERT(g_state == 3, "everything is written");
  VP_ASSERT(lowerx == g_x1 && lowery == g_y1 && upperx == g_x2 && uppery == g_y2, "the box goes around all points");
}
