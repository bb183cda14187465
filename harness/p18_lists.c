/* P18: the lists holding outlines, curves and splines.  Real code: src/spline.c, src/curve.c, src/pxl-outline.c */
#include "autotrace.h"
#include "vp.h"
#include "xstd.h"
/* heap by contract: realloc gives a block of the size asked for with the old content, shown for one element chosen freely */
static void *vp_old, *vp_new, *vp_freed; static size_t vp_size, vp_esz, vp_w; static bool vp_haveold; static int vp_gets;
static void *vp_get(void *p, size_t n)
{
  vp_gets++;
  VP_ASSERT(p == vp_old, "P18 the list's own block is enlarged");
  VP_ASSERT(n >= vp_size, "P18 the block gets room for the elements of the list");
  vp_new = malloc(n);
  return vp_new;
}
#undef XREALLOC
#define XREALLOC(p, n) do { __typeof__(p) vp_o = (p); (p) = vp_get(vp_o, n); if (vp_haveold) (p)[vp_w] = vp_o[vp_w]; } while (0)
#undef XMALLOC
#define XMALLOC(p, n) ((p) = vp_mallocx(n))
static void *vp_mallocx(size_t n) { return malloc(n); }
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "curve.c"
#include "vector.c"
#include "epsilon-equal.c"
#include "pxl-outline.c"
#ifndef VP_MAX
#define VP_MAX 100000
#endif
static float fl(void) { return nd_float(); }
static bool eq3(at_real_coord a, at_real_coord b) { return VP_FEQ(a.x, b.x) && VP_FEQ(a.y, b.y) && VP_FEQ(a.z, b.z); }
static bool eqc(at_color a, at_color b) { return a.r == b.r && a.g == b.g && a.b == b.b; }
static spline_type mk_spline_type(void) { spline_type s; int i; for (i = 0; i < 4; i++) { s.v[i].x = fl(); s.v[i].y = fl(); s.v[i].z = fl(); } s.degree = nd_bool() ? LINEARTYPE : CUBICTYPE; s.linearity = fl(); return s; }
static bool eq_spline_type(spline_type a, spline_type b) { return eq3(a.v[0], b.v[0]) && eq3(a.v[1], b.v[1]) && eq3(a.v[2], b.v[2]) && eq3(a.v[3], b.v[3]) && a.degree == b.degree && VP_FEQ(a.linearity, b.linearity); }
static spline_type vp_sd[2];
static spline_list_type mk_spline_list_type(void) { spline_list_type l; l.data = &vp_sd[nd_bool()]; l.length = nd_u32(); l.clockwise = nd_bool(); l.open = nd_bool(); l.color.r = nd_u8(); l.color.g = nd_u8(); l.color.b = nd_u8(); return l; }
static bool eq_spline_list_type(spline_list_type a, spline_list_type b) { return a.data == b.data && a.length == b.length && a.clockwise == b.clockwise && a.open == b.open && eqc(a.color, b.color); }
static struct curve vp_cd[2];
static curve_type mk_curve_type(void) { return &vp_cd[nd_bool()]; }
static bool eq_curve_type(curve_type a, curve_type b) { return a == b; }
static curve_type vp_cl[2];
static curve_list_type mk_curve_list_type(void) { curve_list_type l; l.data = &vp_cl[nd_bool()]; l.length = nd_u32(); l.clockwise = nd_bool(); l.open = nd_bool(); return l; }
static bool eq_curve_list_type(curve_list_type a, curve_list_type b) { return a.data == b.data && a.length == b.length && a.clockwise == b.clockwise && a.open == b.open; }
static at_coord vp_od[2];
static pixel_outline_type mk_pixel_outline_type(void) { pixel_outline_type l; l.data = &vp_od[nd_bool()]; l.length = nd_u32(); l.clockwise = nd_bool(); l.open = nd_bool(); l.color.r = nd_u8(); l.color.g = nd_u8(); l.color.b = nd_u8(); return l; }
static bool eq_pixel_outline_type(pixel_outline_type a, pixel_outline_type b) { return a.data == b.data && a.length == b.length && a.clockwise == b.clockwise && a.open == b.open && eqc(a.color, b.color); }
static at_coord mk_at_coord(void) { at_coord c; c.x = nd_u16(); c.y = nd_u16(); return c; }
static bool eq_at_coord(at_coord a, at_coord b) { return a.x == b.x && a.y == b.y; }
#define SETUP(T, LIST, LEN, DATA)                                              \
  T x, wit; unsigned n = nd_u32(), w = nd_u32();                               \
  x = mk_##T(); wit = mk_##T();                                                \
  VP_ASSUME(n <= VP_MAX && (w < n || n == 0));                                 \
  LEN = n; DATA = n ? malloc((size_t)n * sizeof(T)) : NULL;                    \
  if (n) DATA[w] = wit;                                                        \
  vp_old = DATA; vp_esz = sizeof(T); vp_w = w; vp_haveold = n > 0; vp_size = (size_t)(n + 1) * sizeof(T)
#define CHECK(T, LEN, DATA)                                                       \
  VP_ASSERT(vp_gets == 1 && LEN == n + 1 && (void *)DATA == vp_new, "P18 appending makes the list one longer"); \
  VP_ASSERT(eq_##T(DATA[n], x), "P18 the new element is the last one");  \
  VP_ASSERT(n == 0 || eq_##T(DATA[w], wit), "P18 appending keeps the elements before"); \
  if (n) VP_REACH("more"); else VP_REACH("first")
void h_spline(void) { spline_list_type l; at_color c = { nd_u8(), nd_u8(), nd_u8() }; l.color = c; l.open = nd_bool(); l.clockwise = nd_bool(); spline_list_type o = l;
  SETUP(spline_type, l, l.length, l.data); append_spline(&l, x); CHECK(spline_type, l.length, l.data);
  VP_ASSERT(l.color.r == c.r && l.color.g == c.g && l.color.b == c.b && l.open == o.open && l.clockwise == o.clockwise, "P18 appending keeps color and kind of the list"); }
void h_spline_list(void) { spline_list_array_type l; l.height = nd_u16(); l.width = nd_u16(); unsigned short h = l.height, wd = l.width; SETUP(spline_list_type, l, l.length, l.data); append_spline_list(&l, x); CHECK(spline_list_type, l.length, l.data);
  VP_ASSERT(l.height == h && l.width == wd, "P18 appending keeps the size of the drawing"); }
void h_curve(void) { curve_list_type l; SETUP(curve_type, l, l.length, l.data); append_curve(&l, x); CHECK(curve_type, l.length, l.data); }
void h_curve_list(void) { curve_list_array_type l; SETUP(curve_list_type, l, l.length, l.data); append_curve_list(&l, x); CHECK(curve_list_type, l.length, l.data); }
void h_outline(void) { pixel_outline_list_type l; SETUP(pixel_outline_type, l, l.length, l.data); append_pixel_outline(&l, x); CHECK(pixel_outline_type, l.length, l.data); }
void h_pixel(void) { pixel_outline_type l; l.open = nd_bool(); l.clockwise = nd_bool(); SETUP(at_coord, l, l.length, l.data); append_outline_pixel(&l, x); CHECK(at_coord, l.length, l.data); }
void h_point(void) { struct curve s; curve_type c = &s; at_real_coord p; point_type wit; unsigned n = nd_u32(), w = nd_u32();
  p.x = nd_float(); p.y = nd_float(); p.z = nd_float(); wit.coord.x = nd_float(); wit.coord.y = nd_float(); wit.coord.z = nd_float(); wit.t = nd_float();
  VP_ASSUME(n <= VP_MAX && (w < n || n == 0));
  c->length = n; c->point_list = n ? malloc((size_t)n * sizeof(point_type)) : NULL; if (n) c->point_list[w] = wit;
  vp_old = c->point_list; vp_esz = sizeof(point_type); vp_w = w; vp_haveold = n > 0; vp_size = (size_t)(n + 1) * sizeof(point_type);
  bool px = nd_bool(); at_coord ip; ip.x = nd_u16(); ip.y = nd_u16();
  if (px) { append_pixel(c, ip); p.x = ip.x; p.y = ip.y; p.z = 0; } else append_point(c, p);
  VP_ASSERT(vp_gets == 1 && c->length == n + 1 && (void *)c->point_list == vp_new, "P18 appending makes the list one longer");
  VP_ASSERT(VP_FEQ(c->point_list[n].coord.x, p.x) && VP_FEQ(c->point_list[n].coord.y, p.y) && VP_FEQ(c->point_list[n].coord.z, p.z), "P18 the new point is the last one");
  VP_ASSERT(n == 0 || VP_FEQ(c->point_list[w].coord.x, wit.coord.x) && VP_FEQ(c->point_list[w].coord.y, wit.coord.y) && VP_FEQ(c->point_list[w].coord.z, wit.coord.z) && VP_FEQ(c->point_list[w].t, wit.t), "P18 appending keeps the points before");
  if (px) VP_REACH("pixel"); else VP_REACH("point"); }
void h_empty(void)
{
  spline_list_type l = empty_spline_list(), *p; spline_list_array_type a = new_spline_list_array(); curve_list_type c = new_curve_list(); curve_list_array_type ca = new_curve_list_array(); curve_type cv = new_curve(), cc; spline_type s; unsigned i;
  for (i = 0; i < 4; i++) { s.v[i].x = nd_float(); s.v[i].y = nd_float(); }
  VP_ASSERT(!l.data && !l.length && !a.data && !a.length && !c.data && !c.length && !ca.data && !ca.length, "P18 new lists are empty");
  VP_ASSERT(!cv->point_list && !cv->length && !cv->cyclic && !cv->start_tangent && !cv->end_tangent && !cv->previous && !cv->next, "P18 a new curve is empty");
  cv->cyclic = nd_bool(); cv->previous = cv; cv->next = cv;
  cc = copy_most_of_curve(cv);
  VP_ASSERT(cc != cv && cc->cyclic == cv->cyclic && cc->previous == cv && cc->next == cv && !cc->point_list && !cc->length && !cc->start_tangent && !cc->end_tangent, "P18 the copy of a curve has its place but no points");
  p = new_spline_list(); VP_ASSERT(!p->data && !p->length, "P18 new lists are empty"); free(p);
  p = new_spline_list_with_spline(s); VP_ASSERT(p->length == 1 && VP_FEQ(p->data[0].v[3].y, s.v[3].y) && VP_FEQ(p->data[0].v[0].x, s.v[0].x), "P18 a list made with a spline holds it");
  free_spline_list(*p); free(p); free_curve(cv); free(cv); free_curve(cc); free(cc); free_spline_list_array(&a); free_curve_list(&c); free_curve_list_array(&ca, NULL, NULL);
  VP_REACH("empty");
}
