/* P28: DXF.  The lists of points.  The text is output-dxf.c. */
#include "vp.h"
#include "types.h"
#include "spline.h"
#include "color.h"
#include <math.h>
#include "output-dxf.c"
/* any list: only its ends matter */
void h_list(void)
{
  xypnt_head_rec h; xypnt_point_rec a, b, *l; xypnt p, q; char fin = 5; int n = nd_u8() % 3;
  p.xp = nd_int(); p.yp = nd_int(); a.point.xp = nd_int(); a.point.yp = nd_int(); b.point.xp = nd_int(); b.point.yp = nd_int();
  a.next_point = n == 2 ? &b : NULL; b.next_point = NULL;
  h.first_point = n ? &a : NULL; h.last_point = n == 2 ? &b : n ? &a : NULL; h.current_point = NULL;
  xypnt_add_pnt(&h, p);
  VP_REACH("end");
  l = h.last_point;
  VP_ASSERT(l && l != &a && l != &b && l->next_point == NULL && l->point.xp == p.xp && l->point.yp == p.yp, "the point is the last one");
  VP_ASSERT(n == 0 ? h.first_point == l : h.first_point == &a && (n == 1 ? a.next_point == l : a.next_point == &b && b.next_point == l), "the points before stay");
  xypnt_last_pnt(&h, &q, &fin); VP_ASSERT(fin == 0 && q.xp == p.xp && q.yp == p.yp && h.current_point == l, "the last point is found");
  xypnt_first_pnt(&h, &q, &fin); VP_ASSERT(fin == 0 && h.current_point == h.first_point && q.xp == h.first_point->point.xp && q.yp == h.first_point->point.yp, "the first point is found");
  xypnt_next_pnt(&h, &q, &fin); VP_ASSERT(n == 0 ? fin == 1 && h.current_point == NULL : fin == 0 && h.current_point == a.next_point && q.xp == a.next_point->point.xp && q.yp == a.next_point->point.yp, "the points come one after the other");
}
