#include "vp_ghost.h"
#include "vp_text.h"
/* what has been drawn so far */
unsigned g_lists, g_spl;      /* outlines begun; splines of the current one drawn */
bool g_in;                    /* a path element is open */
bool g_moved, g_z;
at_color g_col;
int g_h;
static inline void vp_out(const char *fmt, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
  bool stroke = vp_center || vp_open;
  if (fmt[0] == '<') {
    const char *s = v0.s, *t = v4.s; double r = v1.d, g = v2.d, b = v3.d;
    VP_ASSERT(!g_in && vp_li == (int)g_lists && (vp_li == 0 || !COL_EQ(vp_cur.color, vp_prev.color)), "a path element begins where the colour changes");
    VP_ASSERT(s[0] == (stroke ? 's' : 'f') && t[0] == (stroke ? 'f' : 's'), "outlines are filled, centerlines stroked");
    VP_ASSERT(r == vp_cur.color.r && g == vp_cur.color.g && b == vp_cur.color.b, "a path has the colour of its outline");
    g_in = true; g_col = vp_cur.color;
  } else if (fmt[0] == 'M') {
    double x = v0.d, y = v1.d;
    VP_ASSERT(vp_li == (int)g_lists && g_in && COL_EQ(g_col, vp_cur.color), "an outline is drawn in a path of its colour");
    VP_ASSERT(vp_li == 0 || g_spl == vp_prev.length, "every spline is drawn");
    VP_ASSERT(x == vp_first.v[0].x && y == g_h - vp_first.v[0].y, "an outline starts at its first point");
    g_lists++; g_spl = 0; 
  } else if (fmt[0] == 'L') {
    double x = v0.d, y = v1.d; spline_type *e = g_spl ? &vp_spl : &vp_first;
    VP_ASSERT(g_lists == (unsigned)vp_li + 1 && g_in && g_spl == vp_si && g_spl < vp_cur.length, "every spline is drawn once, in order");
    VP_ASSERT(e->degree == LINEARTYPE && x == e->v[3].x && y == g_h - e->v[3].y, "a line ends at its end point");
    g_spl++;
  } else if (fmt[0] == 'C') {
    double x1 = v0.d, y1 = v1.d, x2 = v2.d, y2 = v3.d, x = v4.d, y = v5.d; spline_type *e = g_spl ? &vp_spl : &vp_first;
    VP_ASSERT(g_lists == (unsigned)vp_li + 1 && g_in && g_spl == vp_si && g_spl < vp_cur.length, "every spline is drawn once, in order");
    VP_ASSERT(e->degree != LINEARTYPE && x == e->v[3].x && y == g_h - e->v[3].y && x1 == e->v[1].x && y1 == g_h - e->v[1].y && x2 == e->v[2].x && y2 == g_h - e->v[2].y, "a curve has its control points and end point");
    g_spl++;
  } else VP_ASSERT(0, "known text");
}
void vp_puts(const char *s, FILE *f)
{
  bool stroke = vp_center || vp_open;
  if (s[0] == 'z') { VP_ASSERT(g_in && !stroke && !g_z, "a filled path is closed once"); g_z = true; }
  else if (s[0] == '"') { VP_ASSERT(g_in && g_z == !stroke, "a filled path is closed"); g_in = false; g_z = false; }
  else VP_ASSERT(0, "known text");
}
#define fprintf VP_PRINTF
#define fputs vp_puts
#include "output-svg.c"
#undef fputs
#undef fprintf
#include "color.c"
void h_svg(void)
{
  spline_list_array_type shape;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000);
  vp_center = nd_bool(); vp_open = nd_bool(); vp_li = -1; g_lists = g_spl = 0; g_in = g_z = false;
  g_h = nd_int(); VP_ASSUME(g_h >= 0 && g_h <= 65535);
  shape.data = NULL; shape.length = vp_nlists; shape.centerline = vp_center;
  out_splines(NULL, shape, g_h);
  VP_REACH("end");
  VP_ASSERT(g_lists == vp_nlists && !g_in && !g_z, "every outline is drawn");
  VP_ASSERT(vp_nlists == 0 || g_spl == vp_cur.length, "every spline is drawn");
}
