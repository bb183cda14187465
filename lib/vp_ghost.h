/* Ghost picture for the writers: outlines and splines of any number and any
 * value, handed out element by element.  The writer's element macros are
 * redirected here, so that a picture of unbounded size needs no memory. */
#ifndef VP_GHOST_H
#define VP_GHOST_H
#include "vp.h"
#include <stdarg.h>
#include "spline.h"
#include "color.h"
unsigned vp_nlists;            /* outlines in the picture */
bool vp_center, vp_open;       /* traced by centerline; outlines open */
int vp_li = -1;                /* the outline last handed out */
spline_list_type vp_cur, vp_prev;
unsigned vp_si;                /* the spline last handed out */
spline_type vp_first, vp_spl;  /* spline 0 and spline vp_si of vp_cur */
#ifndef VP_CMIN
#define VP_CMIN -1e6f
#define VP_CMAX 1e6f
#endif
float nd_coord(void) { float f = nd_float(); VP_ASSUME(f >= VP_CMIN && f <= VP_CMAX); return f; }
static spline_type nd_spline(void)
{
  spline_type s; int k;
  s.v[0].x = nd_coord(); s.v[0].y = nd_coord(); s.v[0].z = 0;
  s.v[1].x = nd_coord(); s.v[1].y = nd_coord(); s.v[1].z = 0;
  s.v[2].x = nd_coord(); s.v[2].y = nd_coord(); s.v[2].z = 0;
  s.v[3].x = nd_coord(); s.v[3].y = nd_coord(); s.v[3].z = 0;
  s.degree = nd_bool() ? LINEARTYPE : CUBICTYPE; s.linearity = 0;
  return s;
}
static spline_list_type nd_list(void)
{
  spline_list_type l;
  l.data = NULL; l.length = nd_u32(); VP_ASSUME(l.length >= 1 && l.length <= 1000000);
  l.color.r = nd_u8(); l.color.g = nd_u8(); l.color.b = nd_u8(); l.clockwise = nd_bool(); l.open = vp_open;
  return l;
}
/* what the contract calls for may be stated where an element is read */
#ifndef VP_AT_LIST
#define VP_AT_LIST(n)
#endif
#ifndef VP_AT_SPLINE
#define VP_AT_SPLINE(n, e)
#endif
static spline_list_type *vp_list(unsigned n)
{
  VP_ASSERT(n < vp_nlists, "only outlines of the picture are read");
  if (vp_li < 0 || n == (unsigned)vp_li + 1) {
    VP_ASSERT(n == (unsigned)(vp_li + 1), "outlines are read in order");
    vp_prev = vp_cur; vp_cur = nd_list(); vp_li = n; vp_first = nd_spline(); vp_si = 0; vp_spl = vp_first;
    VP_AT_LIST(n);
    return &vp_cur;
  }
  VP_ASSERT(n == vp_li, "outlines are read in order");
  return &vp_cur;
}
static spline_type *vp_spline(unsigned n)
{
  VP_ASSERT(n < vp_cur.length, "only splines of the outline are read");
  if (n == 0) { VP_AT_SPLINE(n, &vp_first); return &vp_first; }
  if (n == vp_si + 1) { vp_si = n; vp_spl = nd_spline(); }
  else VP_ASSERT(n == vp_si, "splines are read in order");
  VP_AT_SPLINE(n, &vp_spl);
  return &vp_spl;
}
#undef SPLINE_LIST_ARRAY_ELT
#undef SPLINE_LIST_ELT
#define SPLINE_LIST_ARRAY_ELT(a, n) (*vp_list(n))
#define SPLINE_LIST_ELT(l, n) (*vp_spline(n))
#define COL_EQ(p, q) ((p).r == (q).r && (p).g == (q).g && (p).b == (q).b)
#endif
