/* P18 executed: lists of up to 70 elements of every kind, joined lists of every length up to 12. */
#include "autotrace.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "curve.c"
#include "vector.c"
#include "epsilon-equal.c"
#include "pxl-outline.c"
#define N 70
static spline_type sp(int i) { spline_type s; int k; for (k = 0; k < 4; k++) { s.v[k].x = i * 5 + k; s.v[k].y = -i + k; s.v[k].z = i * k; } s.degree = i % 2 ? LINEARTYPE : CUBICTYPE; s.linearity = i / 8.0f; return s; }
static int eq(spline_type s, int i) { spline_type r = sp(i); int k; for (k = 0; k < 4; k++) if (s.v[k].x != r.v[k].x || s.v[k].y != r.v[k].y || s.v[k].z != r.v[k].z) return 0; return s.degree == r.degree && s.linearity == r.linearity; }
void h_run(void)
{
  int i, j, n, m;
  for (n = 0; n <= N; n++) {
    spline_list_type l = empty_spline_list(); spline_list_array_type a = new_spline_list_array(); curve_type c = new_curve(), d = new_curve();
    curve_list_type cl = new_curve_list(); curve_list_array_type ca = new_curve_list_array();
    pixel_outline_type o = new_pixel_outline(); pixel_outline_list_type ol; ol.data = NULL; ol.length = 0;
    sprintf(vp_case_text, "%d elements", n);
    vp_cases++;
    cl.clockwise = false; cl.open = false;
    for (i = 0; i < n; i++) {
      at_real_coord p = { i * 0.5f, -i, i * 3 }; at_coord q = { 60000 - i, i * 7 }; pixel_outline_type po = new_pixel_outline(); curve_list_type cc = new_curve_list(); spline_list_type sl = empty_spline_list();
      append_spline(&l, sp(i)); append_point(c, p); append_pixel(d, q); append_curve(&cl, new_curve()); append_outline_pixel(&o, q);
      po.color.r = i; append_pixel_outline(&ol, po); cc.clockwise = i % 3 == 0; cc.open = false; append_curve(&cc, new_curve()); append_curve_list(&ca, cc);
      append_spline(&sl, sp(i + 3)); sl.color.g = i; append_spline_list(&a, sl);
    }
    VP_ASSERT(l.length == n && a.length == n && c->length == n && d->length == n && cl.length == n && ca.length == n && o.length == n && ol.length == n, "P18 a list has as many elements as were appended");
    for (i = 0; i < n; i++) {
      VP_ASSERT(eq(l.data[i], i) && a.data[i].length == 1 && a.data[i].color.g == i && eq(a.data[i].data[0], i + 3), "P18 appending keeps the elements before");
      VP_ASSERT(c->point_list[i].coord.x == i * 0.5f && c->point_list[i].coord.y == -i && c->point_list[i].coord.z == i * 3, "P18 appending keeps the elements before");
      VP_ASSERT(d->point_list[i].coord.x == 60000 - i && d->point_list[i].coord.y == i * 7 && d->point_list[i].coord.z == 0, "P18 appending keeps the elements before");
      VP_ASSERT(o.data[i].x == 60000 - i && o.data[i].y == i * 7 && ol.data[i].color.r == i && ca.data[i].clockwise == (i % 3 == 0) && ca.data[i].length == 1, "P18 appending keeps the elements before");
    }
    free_spline_list(l); free_spline_list_array(&a); free_curve(c); free(c); free_curve(d); free(d); free_pixel_outline(&o); free_pixel_outline_list(&ol);
    if (n) { free_curve_list(&cl); for (i = 0; i < 0; i++) ; } 
    free_curve_list_array(&ca, NULL, NULL);
    VP_ASSERT(vp_blocks == 0, "P18 freeing the lists frees everything");
  }
  for (n = 0; n <= 12; n++) for (m = 0; m <= 12; m++) {
    spline_list_type a = empty_spline_list(), b = empty_spline_list();
    sprintf(vp_case_text, "%d and %d elements", n, m);
    vp_cases++;
    for (i = 0; i < n; i++) append_spline(&a, sp(i));
    for (i = 0; i < m; i++) append_spline(&b, sp(100 + i));
    concat_spline_lists(&a, b);
    VP_ASSERT(a.length == n + m && b.length == m, "P18 joining lists adds their lengths and leaves the second alone");
    for (i = 0; i < n + m; i++) VP_ASSERT(eq(a.data[i], i < n ? i : 100 + i - n), "P18 joining lists keeps every element in order");
    for (i = 0; i < m; i++) VP_ASSERT(eq(b.data[i], 100 + i), "P18 joining lists adds their lengths and leaves the second alone");
    free_spline_list(a); free_spline_list(b);
  }
  for (n = 1; n <= 12; n++) for (m = 1; m <= 12; m++) {
    pixel_outline_type a = new_pixel_outline(), b = new_pixel_outline(); at_coord q;
    sprintf(vp_case_text, "outlines of %d and %d pixels", n, m);
    vp_cases++;
    for (i = 0; i < n; i++) { q.x = i; q.y = 5; append_outline_pixel(&a, q); }
    for (i = 0; i < m; i++) { q.x = 100 + i; q.y = 9; append_outline_pixel(&b, q); }
    concat_pixel_outline(&a, &b);
    VP_ASSERT(a.length == n + m - 1, "P18 joining outlines at their common start counts it once");
    for (i = 0; i < n + m - 1; i++) VP_ASSERT(a.data[i].x == (i < m - 1 ? 100 + m - 1 - i : i - (m - 1)) && a.data[i].y == (i < m - 1 ? 9 : 5), "P18 joining outlines keeps every pixel: the second reversed, then the first");
    free_pixel_outline(&a); free_pixel_outline(&b);
  }
  VP_DONE();
}
#ifndef VP_NOMAIN
#endif
