/* Contracts of the PostScript-like writers (EPS, EPD, P2E, PDF): numbers are
 * collected and judged when their operator is written. */
#include "vp_ghost.h"
#include "vp_text.h"
unsigned g_lists, g_spl;      /* outlines begun; splines of the current one drawn */
unsigned g_unpainted;         /* outlines drawn and not yet painted (0, 1, many) */
at_color g_col; bool g_colset;
double g_v0, g_v1, g_v2, g_v3, g_v4, g_v5; unsigned g_n;
bool g_live;                  /* second pass of the PDF writer */
static void push(double d)
{
  VP_ASSERT(g_n < 6, "at most six numbers before an operator");
  if (g_n == 0) g_v0 = d; else if (g_n == 1) g_v1 = d; else if (g_n == 2) g_v2 = d; else if (g_n == 3) g_v3 = d; else if (g_n == 4) g_v4 = d; else g_v5 = d;
  g_n++;
}
static void setcolor(void)
{
  VP_ASSERT(vp_li == (int)g_lists && (vp_li == 0 || !COL_EQ(vp_cur.color, vp_prev.color)), "the colour is set where it changes");
  VP_ASSERT(g_unpainted == 0, "outlines are painted before the colour changes");
  g_col = vp_cur.color; g_colset = true;
}
static void paint(bool stroke)
{
  VP_ASSERT(stroke == (vp_center || vp_open), "outlines are filled, centerlines stroked");
  VP_ASSERT(g_n == 0, "numbers belong to an operator");
  g_unpainted = 0;
}
static void move(void)
{
  VP_ASSERT(g_n == 2 && vp_li == (int)g_lists && g_colset && COL_EQ(g_col, vp_cur.color), "an outline is drawn in its colour");
  VP_ASSERT(vp_li == 0 || g_spl == vp_prev.length, "every spline is drawn");
  VP_ASSERT(g_v0 == vp_first.v[0].x && g_v1 == vp_first.v[0].y, "an outline starts at its first point");
  g_lists++; g_spl = 0; g_n = 0; g_unpainted = 1;
}
static void seg(bool curve)
{
  spline_type *e = g_spl ? &vp_spl : &vp_first;
  VP_ASSERT(g_lists == (unsigned)vp_li + 1 && g_spl == vp_si && g_spl < vp_cur.length, "every spline is drawn once, in order");
  if (!curve)
    VP_ASSERT(g_n == 2 && e->degree == LINEARTYPE && g_v0 == e->v[3].x && g_v1 == e->v[3].y, "a line ends at its end point");
  else
    VP_ASSERT(g_n == 6 && e->degree != LINEARTYPE && g_v0 == e->v[1].x && g_v1 == e->v[1].y && g_v2 == e->v[2].x && g_v3 == e->v[2].y && g_v4 == e->v[3].x && g_v5 == e->v[3].y, "a curve has its control points and end point");
  g_spl++; g_n = 0;
}
/* a string on a line by itself */
static void word(const char *s)
{
#if defined(VP_EPS)
  if (s[0] == '*') {
    if (s[1] == 'U') { VP_ASSERT(g_lists > 0, "a group ends after an outline"); g_unpainted = 0; }
  } else if (s[0] == 'S' || s[0] == 'f') paint(s[0] == 'S');
#elif defined(VP_P2E)
  if (s[0] == 's' && s[1] == 't') paint(true); else if (s[0] == 'f' && s[1] == 'i') paint(false);
  else if (s[0] == 'c') VP_ASSERT(!vp_open && g_spl == vp_cur.length, "only a closed outline is closed");
#else
  if (s[0] == 'S' || s[0] == 'f') paint(s[0] == 'S');
#endif
}
static inline void vp_out(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7)
{
#ifdef VP_PDF
  if (f[0] == ' ' && f[1] == ' ') { g_live = true; vp_li = -1; return; }
  if (!g_live) return;
#endif
  if (f[0] == '%' && f[1] == 's') word(v0.s);
  else if (f[0] == '%' && f[4] == ' ' && f[5] == 0) push(v0.d);
  else if (f[0] == '%' && f[1] == '.') {
#if defined(VP_EPS)
    VP_ASSERT(v4.s[0] == (vp_center || vp_open ? 'K' : 'k'), "the colour is that of the fill or of the stroke");
#elif defined(VP_P2E)
#else
    VP_ASSERT(v3.s[0] == (vp_center || vp_open ? 'R' : 'r'), "the colour is that of the fill or of the stroke");
    VP_ASSERT(v0.d == (double)vp_cur.color.r / 255.0 && v1.d == (double)vp_cur.color.g / 255.0 && v2.d == (double)vp_cur.color.b / 255.0, "the colour of the outline is used");
#endif
    setcolor();
  }
  else if (f[0] == 'm') move();
  else if (f[0] == 'l') seg(false);
  else if (f[0] == ' ' && f[1] == 'c') seg(true);
  else if (f[0] == ' ' && f[1] == 0) ;
  else if (f[0] == '\n') ;
  else VP_ASSERT(0, "known text");
}
static inline void vp_sout(const char *f, vp_val v0, vp_val v1, vp_val v2, vp_val v3, vp_val v4, vp_val v5, vp_val v6, vp_val v7) { }
#include "types.h"
#include "xstd.h"
#include "autotrace.h"
#include "datetime.h"
#define fprintf VP_PRINTF
#define sprintf(t, ...) ((void)0)
#define lround(r) nd_float()
#define strlen(s) ((size_t)nd_u8())
#define do VP_DO
#define while VP_WHILE
#if defined(VP_EPS)
#include "output-eps.c"
#elif defined(VP_EPD)
#include "output-epd.c"
#elif defined(VP_P2E)
#include "output-p2e.c"
#else
#include "output-pdf.c"
#endif
#undef do
#undef while
#undef fprintf
#undef sprintf
#undef strlen
#include "color.c"
void h_ps(void)
{
  spline_list_array_type shape; size_t len = 0;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000);
  vp_center = nd_bool(); vp_open = nd_bool(); vp_li = -1; g_lists = g_spl = g_unpainted = g_n = 0; g_colset = false; g_live = false;
  shape.data = NULL; shape.length = vp_nlists; shape.centerline = vp_center;
#ifdef VP_PDF
  out_splines(NULL, shape, &len);
#else
  out_splines(NULL, shape);
#endif
  VP_REACH("end");
  VP_ASSERT(g_lists == vp_nlists && g_n == 0, "every outline is drawn");
  VP_ASSERT(vp_nlists == 0 || g_spl == vp_cur.length, "every spline is drawn");
  VP_ASSERT(g_unpainted == 0, "every outline is painted");
}
