/* P27: HPGL.  Any picture: every outline is drawn with its pen.
 * Extraction: elements of the picture come from vp_ghost.h, fprintf and fputs are recorders; in the goal of the
 * whole file GetIndexFromRGBValue and WriteBezier stand for their contracts (goals pen, curve).  Everything else is
 * output-plt.c. */
#define VP_CMIN 0.0f
#define VP_CMAX 1e6f
#include "vp_ghost.h"
#include "vp_text.h"
unsigned g_lists, g_spl; int g_state; /* 0: header to come .. 3, 4: pen chosen */
float g_x, g_y; int g_llx, g_lly, g_urx, g_ury, g_pen, g_pens;
#ifdef VP_CURVE
at_real_coord g_p[8]; int g_n;
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
  VP_ASSERT(f[0] == 'P' && f[1] == 'D' && g_n < 8, "a curve is drawn");
  g_p[g_n].x = v0.d; g_p[g_n].y = v1.d; g_n++;
}
#else
#define DUE (vp_li >= 0 && g_lists == (unsigned)vp_li)
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
  if (f[0] == 'I') { VP_ASSERT(g_state == 1, "the header is in order"); g_state = 2; }
  else if (f[0] == 'S' && f[1] == 'C') { VP_ASSERT(g_state == 2 && v0.d == g_llx && v1.d == g_urx && v2.d == g_lly && v3.d == g_ury, "the scale is that of the picture"); g_state = 3; }
  else if (f[0] == 'S') { VP_ASSERT(g_state == 3 && DUE && (vp_li == 0 || (g_spl == vp_prev.length && !COL_EQ(vp_prev.color, vp_cur.color))) && v0.d == g_pen && g_pens, "a pen is chosen for the color of the outline"); g_state = 4; }
  else if (f[0] == 'P' && f[1] == 'U' && g_state >= 3 && DUE) {
    VP_ASSERT(g_state == 4 || (vp_li > 0 && COL_EQ(vp_prev.color, vp_cur.color)), "the pen of the outline is used");
    VP_ASSERT(v0.d == (uint32_t)vp_first.v[0].x && v1.d == (uint32_t)vp_first.v[0].y, "an outline starts at its first point");
    g_x = vp_first.v[0].x; g_y = vp_first.v[0].y; g_lists++; g_spl = 0; g_state = 3; g_pens = 0;
  } else if (f[0] == 'P' && f[1] == 'D') {
    spline_type *e = g_spl ? &vp_spl : &vp_first;
    VP_ASSERT(g_state == 3 && g_lists == (unsigned)vp_li + 1 && g_spl == vp_si && g_spl < vp_cur.length && e->degree == LINEARTYPE, "every line is drawn once, in order");
    VP_ASSERT(v0.d == (uint32_t)e->v[3].x && v1.d == (uint32_t)e->v[3].y, "a line ends at its end point");
    g_x = e->v[3].x; g_y = e->v[3].y; g_spl++;
  } else {
    VP_ASSERT(f[0] == 'P' && f[1] == 'U' && g_state == 3 && g_lists == vp_nlists && v0.d == (uint32_t)g_x && v1.d == (uint32_t)g_y, "the pen is lifted at the end"); g_state = 5;
  }
}
#endif
void vp_puts(const char *s, FILE *f) { VP_ASSERT(g_state == 0 && s[0] == 'I' && s[1] == 'N' && s[2] == ';' && !s[3], "the plotter is initialized first"); g_state = 1; }
#define fprintf VP_PRINTF
#define fputs vp_puts
#include "output-plt.c"
#undef fputs
#undef fprintf
int vp_penof(int r, int g, int b) { VP_ASSERT(r == vp_cur.color.r && g == vp_cur.color.g && b == vp_cur.color.b, "the pen is chosen for the color of the outline"); g_pen = nd_int(); VP_ASSUME(g_pen >= 1 && g_pen <= 8); g_pens = 1; return g_pen; }
void vp_bezier(FILE *f, spline_type s, at_real_coord *p)
{
  spline_type *e = g_spl ? &vp_spl : &vp_first;
  VP_ASSERT(g_state == 3 && g_lists == (unsigned)vp_li + 1 && g_spl == vp_si && g_spl < vp_cur.length && e->degree != LINEARTYPE, "every curve is drawn once, in order");
  VP_ASSERT(p->x == g_x && p->y == g_y && s.v[1].x == e->v[1].x && s.v[1].y == e->v[1].y && s.v[2].x == e->v[2].x && s.v[2].y == e->v[2].y && s.v[3].x == e->v[3].x && s.v[3].y == e->v[3].y, "a curve has its points");
  *p = s.v[3]; g_x = p->x; g_y = p->y; g_spl++;
}
void h_plt(void)
{
  spline_list_array_type shape;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000);
  vp_li = -1; g_lists = g_spl = 0; g_state = 0; g_x = g_y = 0; g_pens = 0;
  g_llx = nd_int(); g_lly = nd_int(); g_urx = nd_int(); g_ury = nd_int();
  VP_ASSUME(g_llx >= 0 && g_llx <= g_urx && g_urx <= 1000000 && g_lly >= 0 && g_lly <= g_ury && g_ury <= 1000000);
  shape.data = NULL; shape.length = vp_nlists;
  OutputPlt((FILE *)&shape, g_llx, g_lly, g_urx, g_ury, shape);
  VP_REACH("end");
  VP_ASSERT(g_lists == vp_nlists && g_state == 5 && (vp_nlists == 0 || g_spl == vp_cur.length), "everything is drawn");
}
/* the nearest pen, for every color */
void h_pen(void)
{
  int r = nd_u8(), g = nd_u8(), b = nd_u8(), i = GetIndexFromRGBValue(r, g, b);
  VP_REACH("end");
  VP_ASSERT(i >= 1 && i <= 8, "a pen is chosen");
#define SQ(x) ((x) * (x))
#define DIST(x, y, z) (SQ(r - (x)) + SQ(g - (y)) + SQ(b - (z)))
  int d1 = DIST(0, 0, 0), d2 = DIST(255, 0, 0), d3 = DIST(0, 255, 0), d4 = DIST(255, 255, 0), d5 = DIST(0, 0, 255), d6 = DIST(0xB8, 0, 0x80), d7 = DIST(0, 255, 255), d8 = DIST(255, 0x84, 0);
  int d = i == 1 ? d1 : i == 2 ? d2 : i == 3 ? d3 : i == 4 ? d4 : i == 5 ? d5 : i == 6 ? d6 : i == 7 ? d7 : d8;
  VP_ASSERT(d <= d1 && d <= d2 && d <= d3 && d <= d4 && d <= d5 && d <= d6 && d <= d7 && d <= d8, "no pen is nearer");
  VP_ASSERT((i <= 1 || d < d1) && (i <= 2 || d < d2) && (i <= 3 || d < d3) && (i <= 4 || d < d4) && (i <= 5 || d < d5) && (i <= 6 || d < d6) && (i <= 7 || d < d7), "of equally near pens the first is taken");
}
void h_points(void)
{
  at_real_coord in[4], out[8]; int i;
  for (i = 0; i < 4; i++) { in[i].x = nd_coord(); in[i].y = nd_coord(); in[i].z = 0; }
  GetSplinePts(in, out, 8);
  VP_REACH("end");
  VP_ASSERT(out[0].x == in[0].x && out[0].y == in[0].y && out[7].x == in[3].x && out[7].y == in[3].y, "a curve goes from its start to its end");
}
#ifdef VP_CURVE
void h_curve(void)
{
  spline_type s = nd_spline(); at_real_coord p, o; int i;
  p.x = nd_coord(); p.y = nd_coord(); p.z = 0; o = p; g_n = 0;
  WriteBezier(NULL, s, &p);
  VP_REACH("end");
  VP_ASSERT(g_n == 7 && p.x == s.v[3].x && p.y == s.v[3].y && g_p[6].x == (uint32_t)s.v[3].x && g_p[6].y == (uint32_t)s.v[3].y, "a curve is seven strokes that end at its end point");
}
#endif
