/* P27: FIG.  Depths and colors.  The text is output-fig.c. */
#include "vp.h"
#include "types.h"
#include "spline.h"
#include "color.h"
#include "xstd.h"
#include "exception.h"
int g_fatal;
void at_exception_fatal(at_exception_type *e, const char *m) { g_fatal++; }
at_exception_type at_exception_new(at_msg_func f, void *d) { at_exception_type e; return e; }
bool at_color_equal(const at_color *a, const at_color *b) { return a->r == b->r && a->g == b->g && a->b == b->b; }
#include "output-fig.c"
typedef struct { float x1, y1, x2, y2; } vbox;
static float c(void) { float f = nd_float(); VP_ASSUME(f >= -1e6f && f <= 1e6f); return f; }
/* what is known of an earlier object with box b and depth d */
static bool inv(vbox b, int d) { return fig_depth >= 0 && fig_depth <= d && (fig_depth == 0 || d > fig_depth || (glo_bbox_flag && glob_min_x <= b.x1 && glob_min_y <= b.y1 && glob_max_x >= b.x2 && glob_max_y >= b.y2)); }
void h_depth(void)
{
  vbox b, n; int d = nd_int(), before, had = nd_bool();
  b.x1 = c(); b.x2 = c(); b.y1 = c(); b.y2 = c(); VP_ASSUME(b.x1 <= b.x2 && b.y1 <= b.y2);
  n.x1 = c(); n.x2 = c(); n.y1 = c(); n.y2 = c(); VP_ASSUME(n.x1 <= n.x2 && n.y1 <= n.y2);
  fig_depth = nd_int(); VP_ASSUME(fig_depth >= 0 && fig_depth <= 999); before = fig_depth; VP_ASSUME(d <= 999);
  glo_bbox_flag = had; glob_min_x = c(); glob_max_x = c(); glob_min_y = c(); glob_max_y = c();
  loc_bbox_flag = 1; loc_min_x = n.x1; loc_max_x = n.x2; loc_min_y = n.y1; loc_max_y = n.y2;
  VP_ASSUME(!had || inv(b, d));
  fig_new_depth();
  VP_REACH("end");
  VP_ASSERT(loc_bbox_flag == 0 && glo_bbox_flag == 1, "the next object starts with an empty box");
  VP_ASSERT(fig_depth >= 0 && fig_depth <= before && fig_depth >= before - 1, "depths go down one by one");
  VP_ASSERT(inv(n, fig_depth), "the object is accounted for");
  VP_ASSERT(!had || inv(b, d), "earlier objects stay accounted for");
  bool over = !(n.x2 <= b.x1 || n.x1 >= b.x2 || n.y2 <= b.y1 || n.y1 >= b.y2);
  VP_ASSERT(!had || !over || fig_depth < d || fig_depth == 0, "an object over an earlier one is above it");
}
void h_bbox(void)
{
  float x = c(), y = c(); vbox o; bool had = nd_bool();
  loc_bbox_flag = had; loc_min_x = o.x1 = c(); loc_max_x = o.x2 = c(); loc_min_y = o.y1 = c(); loc_max_y = o.y2 = c();
  VP_ASSUME(o.x1 <= o.x2 && o.y1 <= o.y2);
  fig_addtobbox(x, y);
  VP_REACH("end");
  VP_ASSERT(loc_bbox_flag == 1 && loc_min_x <= x && loc_max_x >= x && loc_min_y <= y && loc_max_y >= y, "the box has the point");
  VP_ASSERT(!had || (loc_min_x <= o.x1 && loc_max_x >= o.x2 && loc_min_y <= o.y1 && loc_max_y >= o.y2), "the box keeps its points");
  VP_ASSERT((loc_min_x == x || (had && loc_min_x == o.x1)) && (loc_max_x == x || (had && loc_max_x == o.x2)) && (loc_min_y == y || (had && loc_min_y == o.y1)) && (loc_max_y == y || (had && loc_max_y == o.y2)), "the box has nothing else");
}
/* a file starts with the basic colors; cyan is not found by its hash and is defined when used */
static unsigned first_at(int h) { return h == 543 ? 7 : h == 255 ? 4 : h == 161 ? 2 : h == 127 ? 1 : h == 198 ? 3 : h == 382 ? 5 : h == 416 ? 6 : 0; }
static bool basic(int i, at_color *p) { return p->r == (i >= 4 ? 255 : 0) && p->g == (i == 2 || i == 3 || i >= 6 ? 255 : 0) && p->b == (i & 1 ? 255 : 0); }
void h_start(void)
{
  int i = nd_int(), h = nd_int();
  VP_ASSUME(i >= 0 && i < 544 && h >= 0 && h < 544);
  LAST_FIG_COLOUR = nd_int(); glo_bbox_flag = nd_bool(); loc_bbox_flag = nd_bool();
  fig_hash[h].colour = nd_u32(); fig_colour_map[i].alternate = nd_int();
  fig_col_init();
  VP_REACH("end");
  VP_ASSERT(LAST_FIG_COLOUR == 32 && !glo_bbox_flag && !loc_bbox_flag, "a file starts without colors and boxes");
  VP_ASSERT(fig_hash[h].colour == first_at(h) && fig_colour_map[i].alternate == 0 && (i >= 8 || basic(i, &fig_colour_map[i].c)), "a file starts with the basic colors");
}
void h_ends(void)
{
  float a = c(), b = c(), d = c(), e = c();
  VP_ASSERT(bezpnt(0.0f, a, b, d, e) == a && bezpnt(1.0f, a, b, d, e) == e, "a curve goes from its start to its end");
  VP_REACH("end");
}
