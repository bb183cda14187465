/* P26: DR2D.  Numbers, counts and boxes of paths of any length.
 * Extraction: elements of the picture come from vp_ghost.h; FloatAsIEEEBytes is a
 * recorder in the goal box (its contract is the goal numbers); the rest is output-dr2d.c. */
#include "types.h"
#include "spline.h"
static void vp_at_spline(unsigned n, spline_type *e);
#define VP_AT_LIST(n)
#define VP_AT_SPLINE(n, e) vp_at_spline(n, e)
#include "vp_ghost.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int g_height, g_line, g_count; unsigned g_spl, g_sum, g_max; float g_x1, g_y1, g_x2, g_y2;
static void vp_at_spline(unsigned n, spline_type *e)
{
  if (n != g_spl) return;
  g_spl++; g_sum += e->degree == LINEARTYPE ? 1 : 5;
  VP_ASSUME(g_sum <= g_max);
#ifdef VP_PATH
  /* g_count is the number of points of the path handed out */
  VP_ASSUME(n + 1 < vp_cur.length ? g_sum + (vp_first.degree == LINEARTYPE) < g_count : g_sum + (vp_first.degree == LINEARTYPE) == g_count);
#endif
  float x = e->v[3].x, y = g_height - e->v[3].y;
  if (n == 0) { g_x1 = g_x2 = e->v[0].x; g_y1 = g_y2 = g_height - e->v[0].y; }
  if (x < g_x1) g_x1 = x; if (x > g_x2) g_x2 = x; if (y < g_y1) g_y1 = y; if (y > g_y2) g_y2 = y;
}
#include "output-dr2d.c"
float r_v[4]; unsigned char *r_p[4]; int r_n;
void vp_float(float v, unsigned char *p) { if (r_n < 4) { r_v[r_n] = v; r_p[r_n] = p; } r_n++; }
static void begin(void)
{
  g_line = LINEARTYPE; vp_nlists = 1; vp_li = -1; vp_list(0); g_spl = 0; g_sum = 0; g_max = 0x7FFFFFFF >> 4; r_n = 0;
  g_height = nd_u32(); VP_ASSUME(g_height >= 1 && g_height <= 65535);
}
void h_count(void)
{
  begin();
  int n = CountSplines(vp_cur);
  VP_REACH("end");
  VP_ASSERT(g_spl == vp_cur.length && n == (int)g_sum + (vp_first.degree == LINEARTYPE), "a line has one point, a curve its mark and four, and a path beginning with a line its start");
}
void h_box(void)
{
  begin(); XFactor = 1; YFactor = 1;
  struct Chunk *c = BuildBBOX(vp_cur, g_height);
  VP_REACH("end");
  VP_ASSERT(c != NULL && c->Size == 16 && r_n == 4, "a box has four numbers");
  VP_ASSERT(c->ID[0] == 'B' && c->ID[1] == 'B' && c->ID[2] == 'O' && c->ID[3] == 'X', "a box is announced");
  VP_ASSERT(r_p[0] == c->Data && r_p[1] == c->Data + 4 && r_p[2] == c->Data + 8 && r_p[3] == c->Data + 12, "the numbers of a box follow each other");
  VP_ASSERT(r_v[0] == g_x1 && r_v[1] == g_y1 && r_v[2] == g_x2 && r_v[3] == g_y2, "a box spans the start and the ends of all splines");
}
void h_numbers(void)
{
  float v = nd_float(), f; unsigned char b[4]; union { unsigned u; float f; } r; int i = nd_u32();
  VP_ASSUME(v > -2147483648.0f && v < 2147483648.0f);
  FloatAsIEEEBytes(v, b);
  r.u = (unsigned)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
  VP_REACH("end");
  VP_ASSERT((double)r.f * 1024 == (double)(long)v, "a number is written in steps of 1/1024");
  IntAsBytes(i, b); VP_ASSERT((int)((unsigned)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]) == i, "a word is written, high byte first");
  ShortAsBytes(i, b); VP_ASSERT((b[0] << 8 | b[1]) == (i & 65535), "a short word is written, high byte first");
}
void h_push(void)
{
  int at = 0; unsigned char b[8]; r_n = 0;
  float x = nd_coord(), y = nd_coord(); XFactor = 2; YFactor = 4;
  PushPolyPoint(b, &at, x, y);
  VP_REACH("end");
  VP_ASSERT(at == 8 && r_n == 2 && r_p[0] == b && r_p[1] == b + 4 && r_v[0] == x * 2 && r_v[1] == y * 4, "a point is its two numbers, scaled");
  at = 0; PushPolyIndicator(b, &at, 1);
  VP_ASSERT(at == 8 && b[0] == 255 && b[1] == 255 && b[2] == 255 && b[3] == 255 && b[4] == 0 && b[5] == 0 && b[6] == 0 && b[7] == 1, "a curve is marked");
}
/* the data of a whole path of any length, against the contracts of CountSplines, PushPolyPoint and PushPolyIndicator */
int g_at; unsigned g_state, g_done; bool g_started; /* points of the current curve to come; points written; start written */
int vp_count(spline_list_type l) { return g_count; }
struct Chunk *vp_bbox(spline_list_type l, int h) { return NULL; }
struct Chunk *vp_attr(at_color c, int s, struct Chunk *m) { return NULL; }
void vp_point(unsigned char *p, int *at, float x, float y)
{
  spline_type *e = g_spl > 1 ? &vp_spl : &vp_first;
  VP_ASSERT(*at == g_at && g_at >= 2 && g_at + 8 <= 2 + 8 * g_count, "points follow each other within the data");
  if (!g_started && vp_first.degree == LINEARTYPE) { VP_ASSERT(g_done == 0 && x == vp_first.v[0].x && y == g_height - vp_first.v[0].y, "a path beginning with a line has its start first"); g_started = 1; }
  else if (g_state) { VP_ASSERT(x == e->v[4 - g_state].x && y == g_height - e->v[4 - g_state].y, "a curve has its four points"); g_state--; g_done++; }
  else { VP_ASSERT(g_done + 1 == g_sum && e->degree == LINEARTYPE && x == e->v[3].x && y == g_height - e->v[3].y, "a line has its end"); g_done++; }
  *at += 8; g_at += 8;
}
void vp_mark(unsigned char *p, int *at, unsigned f)
{
  spline_type *e = g_spl > 1 ? &vp_spl : &vp_first;
  VP_ASSERT(*at == g_at && g_at >= 2 && g_at + 8 <= 2 + 8 * g_count, "points follow each other within the data");
  VP_ASSERT(g_state == 0 && g_done + 5 == g_sum && e->degree != LINEARTYPE && f == 1, "a curve is marked");
  g_state = 4; g_done++; *at += 8; g_at += 8;
}
void h_path(void)
{
  spline_list_array_type shape; struct Chunk **l; bool center = nd_bool(), open;
  begin(); vp_li = -1; vp_open = nd_bool(); g_state = g_done = 0; g_started = 0; g_at = 2; g_spl = 0; g_sum = 0;
  g_count = nd_u32(); VP_ASSUME(g_count >= 1 && g_count <= 5000001);
  shape.data = NULL; shape.length = 1; shape.centerline = center; shape.background_color = NULL;
  /* the count is that of the path handed out (see vp_at_spline) */
  l = GeneratexPLY(NULL, shape, g_height);
  VP_REACH("end");
  VP_ASSERT(l[2]->Size == 2 + 8 * (unsigned)g_count && g_at == 2 + 8 * g_count && g_state == 0 && g_spl == vp_cur.length, "the path has as many points as it says");
  VP_ASSERT(l[2]->ID[0] == (center || vp_open ? 'O' : 'C') && l[2]->ID[1] == 'P' && l[2]->ID[2] == 'L' && l[2]->ID[3] == 'Y', "filled paths are closed");
  VP_ASSERT(l[2]->Data[0] == (g_count >> 8 & 255) && l[2]->Data[1] == (g_count & 255), "the number of points is written");
}
