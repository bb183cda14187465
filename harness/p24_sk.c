#include "vp_ghost.h"
#include "vp_text.h"
unsigned g_lists, g_spl;      /* outlines begun; splines of the current one drawn */
int g_state;                  /* 0 between outlines, 1 colour set, 2 other paint off, 3 object begun, 4 drawing */
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
  bool stroke = vp_center || vp_open;
  if (f[0] == '%') {
    VP_ASSERT(g_state == 0 || (stroke && g_state == 4), "an outline begins after the one before is complete");
    VP_ASSERT(vp_li == (int)g_lists && (vp_li == 0 || g_spl == vp_prev.length), "every spline is drawn");
    VP_ASSERT(v0.s[0] == (stroke ? 'l' : 'f') && v0.s[1] == 'p', "outlines are filled, centerlines stroked");
    VP_ASSERT(v1.d == vp_cur.color.r / 255.0 && v2.d == vp_cur.color.g / 255.0 && v3.d == vp_cur.color.b / 255.0, "the colour of the outline is used");
    g_state = 1;
  } else if (f[0] == 'b' && f[1] == 's') {
    if (g_state == 3) {
      VP_ASSERT(v0.d == vp_first.v[0].x && v1.d == vp_first.v[0].y, "an outline starts at its first point");
      g_state = 4; g_lists++; g_spl = 0;
    } else {
      spline_type *e = g_spl ? &vp_spl : &vp_first;
      VP_ASSERT(g_state == 4 && g_lists == (unsigned)vp_li + 1 && g_spl == vp_si && g_spl < vp_cur.length, "every spline is drawn once, in order");
      VP_ASSERT(e->degree == LINEARTYPE && v0.d == e->v[3].x && v1.d == e->v[3].y, "a line ends at its end point");
      g_spl++;
    }
  } else if (f[0] == 'b' && f[1] == 'c') {
    spline_type *e = g_spl ? &vp_spl : &vp_first;
    VP_ASSERT(g_state == 4 && g_lists == (unsigned)vp_li + 1 && g_spl == vp_si && g_spl < vp_cur.length, "every spline is drawn once, in order");
    VP_ASSERT(e->degree != LINEARTYPE && v0.d == e->v[1].x && v1.d == e->v[1].y && v2.d == e->v[2].x && v3.d == e->v[2].y && v4.d == e->v[3].x && v5.d == e->v[3].y, "a curve has its control points and end point");
    g_spl++;
  } else VP_ASSERT(0, "known text");
}
void vp_puts(const char *s, FILE *f)
{
  bool stroke = vp_center || vp_open;
  if (s[1] == 'e') { VP_ASSERT(g_state == 1 && s[0] == (stroke ? 'f' : 'l'), "the other paint is off"); g_state = 2; }
  else if (s[0] == 'b' && s[1] == '(') { VP_ASSERT(g_state == 2, "an object begins after its colour"); g_state = 3; }
  else if (s[0] == 'b' && s[1] == 'C') { VP_ASSERT(g_state == 4 && !stroke && g_spl == vp_cur.length, "a filled outline is closed"); g_state = 0; }
  else VP_ASSERT(0, "known text");
}
#define fprintf VP_PRINTF
#define fputs vp_puts
#include "output-sk.c"
#undef fputs
#undef fprintf
void h_sk(void)
{
  spline_list_array_type shape;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000);
  vp_center = nd_bool(); vp_open = nd_bool(); vp_li = -1; g_lists = g_spl = 0; g_state = 0;
  shape.data = NULL; shape.length = vp_nlists; shape.centerline = vp_center;
  out_splines(NULL, shape);
  VP_REACH("end");
  VP_ASSERT(g_lists == vp_nlists && (g_state == 0 || ((vp_center || vp_open) && g_state == 4)), "every outline is drawn");
  VP_ASSERT(vp_nlists == 0 || g_spl == vp_cur.length, "every spline is drawn");
}
