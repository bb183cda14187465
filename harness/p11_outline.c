/* P11: outlines.  Real code: src/pxl-outline.c (find_outline_pixels and everything below it), src/autotrace.c, src/color.c, src/exception.c */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#ifdef VP_CBMC
/* address of a pixel by contract: P01 shows what the macro computes */
#include "input.h"
static unsigned char *vp_pixel(at_bitmap *b, unsigned row, unsigned col);
#undef AT_BITMAP_PIXEL
#define AT_BITMAP_PIXEL(b, row, col) vp_pixel(b, row, col)
#endif
#include "pxl-outline.c"

static int vp_fatals, vp_tag, vp_ptag, vp_ctag, vp_asked, vp_stop_at, vp_reports;
static float vp_last;
static void vp_msg(const char *m, at_msg_type t, void *d) { vp_fatals++; }
static void vp_progress(float p, void *d)
{
  VP_ASSERT(d == &vp_ptag && p >= vp_last && p <= 1, "P11 progress grows from zero, towards the caller's function with the caller's data");
  vp_last = p; vp_reports++;
}
static bool vp_cancel(void *d) { VP_ASSERT(d == &vp_ctag, "P11 cancellation is asked with the caller's data"); return ++vp_asked == vp_stop_at; }

#ifdef VP_RUN
#define MAXD 16
static vp_u8 pic[MAXD * MAXD], canvas[MAXD * MAXD];
static vp_u8 colors[4][3] = { { 255, 255, 255 }, { 0, 0, 0 }, { 0, 0, 255 }, { 255, 0, 0 } };
static int W, H, NP;
static vp_u8 used[MAXD + 2][MAXD + 2][4];
static int cell(int x, int y) { return x < 0 || y < 0 || x >= W || y >= H ? -1 : pic[(H - 1 - y) * W + x]; }
static int code(at_color *c) { int i; for (i = 0; i < 4; i++) if (NP == 3 ? c->r == colors[i][0] && c->g == colors[i][1] && c->b == colors[i][2] : c->r == colors[i][0] && c->g == c->r && c->b == c->r) return i; return 9; }

/* closed chain of unit steps around pixels of its color, painted onto the canvas */
static void paint(pixel_outline_type *o, int bg)
{
  unsigned i;
  int x, y, area = 0, col = code(&o->color);
  static vp_u8 vert[MAXD + 2][MAXD + 2];
  memset(vert, 0, sizeof vert);
  VP_ASSERT(o->length >= 4 && !o->open && o->data, "P11 an outline is a closed chain");
  for (i = 0; i < o->length; i++) {
    at_coord a = o->data[i], b = o->data[(i + 1) % o->length];
    int dx = (int)b.x - a.x, dy = (int)b.y - a.y, l, r;
    VP_ASSERT(a.x <= W && a.y <= H, "P11 an outline stays inside the image");
    VP_ASSERT(dx * dx + dy * dy == 1, "P11 consecutive outline points are one pixel side apart, also from the last to the first");
    vp_u8 *u = &used[dy < 0 ? b.y : a.y][dx < 0 ? b.x : a.x][dx ? 1 + dx : 2 + dy];
    VP_ASSERT(!*u, "P11 no pixel side is followed twice from the same side");
    *u = 1;
    if (dx) { int px = dx > 0 ? a.x : b.x;
      l = dx > 0 ? cell(px, a.y) : cell(px, a.y - 1); r = dx > 0 ? cell(px, a.y - 1) : cell(px, a.y); }
    else { int py = dy > 0 ? a.y : b.y; l = dy > 0 ? cell(a.x - 1, py) : cell(a.x, py); r = dy > 0 ? cell(a.x, py) : cell(a.x - 1, py); vert[py][a.x] ^= 1; }
    VP_ASSERT(l == col && r != col, "P11 every outline step has its own color on the left and another one on the right");
    area += (int)a.x * b.y - (int)b.x * a.y;
  }
  VP_ASSERT(o->clockwise == (area < 0), "P11 an outline is marked clockwise exactly when it runs clockwise");
  for (y = 0; y < H; y++) {
    int in = 0;
    for (x = 0; x < W; x++) { in ^= vert[y][x]; if (in) canvas[(H - 1 - y) * W + x] = o->clockwise ? bg : col; }
  }
}
static void one(int bg, bool strict)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_color c;
  at_exception_type e = at_exception_new(vp_msg, &vp_tag);
  pixel_outline_list_type l;
  unsigned i, j, n = W * H;
  char *t = vp_case_text;
  t += sprintf(t, "%dx%d %d plane(s) background %d pixels ", W, H, NP, bg);
  for (i = 0; i < n; i++) *t++ = '0' + pic[i];
  *t = 0;
  for (i = 0; i < n; i++) for (j = 0; j < NP; j++) b->bitmap[i * NP + j] = colors[pic[i]][j];
  if (bg >= 0) at_color_set(&c, colors[bg][0], NP == 3 ? colors[bg][1] : colors[bg][0], NP == 3 ? colors[bg][2] : colors[bg][0]);
  vp_last = 0; vp_reports = vp_asked = 0; vp_fatals = 0;
  l = find_outline_pixels(b, bg >= 0 ? &c : NULL, vp_progress, &vp_ptag, vp_cancel, &vp_ctag, &e);
  VP_ASSERT(vp_fatals == 0, "P11 tracing raises no error");
  if (vp_stop_at && vp_asked >= vp_stop_at) {
    VP_ASSERT(l.length == 0, "P11 a cancelled trace returns no outlines");
    VP_ASSERT(vp_asked == vp_stop_at, "P11 a cancelled trace stops");
  } else {
    for (i = 0; i < n; i++) for (j = 0; j < NP; j++) VP_ASSERT(b->bitmap[i * NP + j] == colors[pic[i]][j], "P11 tracing leaves the image alone");
    memset(used, 0, sizeof used);
    memset(canvas, bg >= 0 ? bg : 8, sizeof canvas);
    for (i = 0; i < l.length; i++) paint(&l.data[i], bg >= 0 ? bg : 8);
    for (i = 0; strict && i < n; i++) VP_ASSERT(canvas[i] == pic[i], "P11 filling the outlines in order gives the image back");
    VP_ASSERT(vp_reports > 0 || n == 0, "P11 progress is reported");
  }
  free_pixel_outline_list(&l);
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P11 tracing and freeing the outlines leaves no memory behind");
  vp_cases++;
}
/* every image of size w x h in nc colors */
static void all(int w, int h, int nc, int np, int bg)
{
  unsigned i, n = w * h;
  W = w; H = h; NP = np;
  memset(pic, 0, sizeof pic);
  for (;;) {
    one(bg, bg < 0 || nc == 2);
    for (i = 0; i < n && ++pic[i] == nc; i++) pic[i] = 0;
    if (i == n) break;
  }
}
void h_all(void)
{
  int w, h;
  for (w = 1; w <= 4; w++) for (h = 1; h <= 4; h++) all(w, h, 2, 1, 0);
  all(5, 3, 2, 1, 0); all(3, 5, 2, 1, -1); all(4, 4, 2, 3, 1); all(3, 3, 3, 3, -1); all(3, 3, 3, 3, 0); all(4, 3, 3, 3, 2); all(3, 4, 3, 3, -1); all(2, 3, 4, 3, -1);
  for (vp_stop_at = 1; vp_stop_at <= 10; vp_stop_at++) all(3, 3, 2, 1, 0);
  vp_stop_at = 0;
  VP_DONE();
}
/* larger images: blobs from a fixed pseudo-random sequence */
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
void h_big(void)
{
  static const vp_u8 near[4][3] = { { 90, 20, 30 }, { 90, 20, 31 }, { 90, 21, 30 }, { 91, 20, 30 } };
  vp_u8 far[4][3]; memcpy(far, colors, sizeof far);
  int k, i;
  for (k = 0; k < VP_N; k++) {
    rs = VP_S * 7919 + k;
    W = 1 + rnd(MAXD); H = 1 + rnd(MAXD); NP = rnd(2) ? 3 : 1;
    int nc = NP == 1 ? 2 : 2 + rnd(3), bg = rnd(3) == 0 ? -1 : rnd(nc), den = 1 + rnd(6);
    for (i = 0; i < W * H; i++) pic[i] = i >= W && rnd(den) ? (rnd(2) && i % W ? pic[i - 1] : pic[i - W]) : rnd(nc);
    memcpy(colors, NP == 3 && k % 3 == 0 ? near : far, sizeof colors);
    one(bg, bg < 0 || nc == 2);
  }
  VP_DONE();
}
/* a hole that holds both background and another color */
void h_mixed_hole(void)
{
  static const vp_u8 p[] = { 1, 1, 1, 1, 1, 2, 0, 1, 1, 1, 1, 1 };
  W = 4; H = 3; NP = 3;
  memcpy(pic, p, sizeof p);
  one(0, true);
  VP_DONE();
}
#endif

#ifdef VP_RUN
/* the largest sizes: a column and a row of pixels */
void h_huge(void)
{
  int k;
  for (k = 0; k < 2; k++) {
    at_bitmap *b = at_bitmap_new(k ? 1 : 65535, k ? 65535 : 1, 1);
    at_exception_type e = at_exception_new(vp_msg, &vp_tag);
    at_color bg = { 255, 255, 255 };
    pixel_outline_list_type l;
    vp_last = 0;
    sprintf(vp_case_text, "a %s of 65535 black pixels", k ? "column" : "row");
    l = find_outline_pixels(b, &bg, vp_progress, &vp_ptag, NULL, NULL, &e);
    VP_ASSERT(l.length == 1 && l.data[0].length == 2 * 65536u, "P11 the largest images are traced completely");
    free_pixel_outline_list(&l);
    at_bitmap_free(b);
    vp_cases++;
  }
  VP_DONE();
}
#endif
#ifdef VP_CBMC
/* One step along an outline, for images of any size and any content.
 * at_bitmap_equal_color/get_color by contract: the color of a pixel inside the image does not change;
 * which of the nine pixels around the current one have the outline's color is arbitrary. */
static at_bitmap bm, mk;
static unsigned short R0, C0;
static bool ghost_eq[3][3], ghost_far;
static bool like(unsigned row, unsigned col)
{
  unsigned dr = row + 1 - R0, dc = col + 1 - C0;
  return dr < 3 && dc < 3 ? ghost_eq[dr][dc] : nd_bool();
}
bool at_bitmap_equal_color(const at_bitmap *b, unsigned int row, unsigned int col, at_color *c)
{
  VP_ASSERT(b == &bm && row < bm.height && col < bm.width, "P11 only pixels inside the image are looked at");
  return like(row, col);
}
static bool outline_edge(int e, unsigned r, unsigned c)
{
  if (!like(r, c)) return false;
  return e == TOP ? r == 0 || !like(r - 1, c) : e == BOTTOM ? r == bm.height - 1 || !like(r + 1, c)
       : e == LEFT ? c == 0 || !like(r, c - 1) : c == bm.width - 1 || !like(r, c + 1);
}
static int ex(int e, int c, bool end) { return c + (e == TOP ? !end : e == LEFT ? 0 : e == BOTTOM ? end : 1); }
static int ey(int e, int r, bool end) { return (int)bm.height - r - 1 + (e == TOP ? 1 : e == LEFT ? !end : e == BOTTOM ? 0 : end); }
static vp_u8 ghost_mark[4][3], ghost_mark0[3][3];
static unsigned char *vp_pixel(at_bitmap *b, unsigned row, unsigned col)
{
  unsigned dr = row + 1 - R0, dc = col + 1 - C0;
  VP_ASSERT(b == &mk && row < mk.height && col < mk.width, "P11 only marks inside the image are looked at");
  return dr < 3 && dc < 3 ? &ghost_mark[dr][dc] : &ghost_mark[3][0];
}
static vp_u8 mark_at(unsigned r, unsigned c) { return ghost_mark0[r + 1 - R0][c + 1 - C0]; }
#ifndef VP_CW
#define VP_CW nd_bool()
#endif
void h_step(void)
{
  edge_type e0, e;
  unsigned short r, c, i;
  at_color col;
  at_exception_type x = at_exception_new(NULL, NULL);
  bm.width = mk.width = nd_u16(); bm.height = mk.height = nd_u16(); bm.np = 1; mk.np = 1;
  R0 = r = nd_u16(); C0 = c = nd_u16(); e0 = e = nd_u8();
  VP_ASSUME(r < bm.height && c < bm.width && e0 <= 3);
#ifdef VP_E
  e0 = e = VP_E;
#endif
  for (i = 0; i < 9; i++) { ghost_eq[i / 3][i % 3] = nd_bool(); ghost_mark[i / 3][i % 3] = ghost_mark0[i / 3][i % 3] = nd_u8(); }
  VP_ASSUME(outline_edge(e0, r, c));
  bool cw = VP_CW;
  at_coord p = next_point(&bm, &e, &r, &c, col, cw, &mk, &x);
  for (i = 0; i < 9; i++) VP_ASSERT(ghost_mark[i / 3][i % 3] == ghost_mark0[i / 3][i % 3], "P11 looking for the next side marks nothing");
  VP_ASSERT(!at_exception_got_fatal(&x), "P11 looking for the next side raises nothing");
  if (e != NO_EDGE) {
    VP_ASSERT(e <= 3 && r < bm.height && c < bm.width, "P11 the next side belongs to a pixel of the image");
    VP_ASSERT(r + 1 - R0 < 3u && c + 1 - C0 < 3u, "P11 the next side belongs to the same or an adjacent pixel");
    VP_ASSERT(!(mark_at(r, c) & 1 << e), "P11 the next side was not followed before");
    VP_ASSERT(ex(e, c, false) == ex(e0, C0, true) && ey(e, r, false) == ey(e0, R0, true), "P11 the next side starts where the current one ends");
    VP_ASSERT(p.x == ex(e, c, true) && p.y == ey(e, r, true), "P11 the point recorded is the end of the next side");
    VP_ASSERT(outline_edge(e, r, c), "P11 the next side has the outline's color on the left and another one on the right");
    VP_REACH("next");
  } else {
    /* the sides that go straight on or turn around the current pixel */
    int turn = e0 == TOP ? LEFT : e0 == LEFT ? BOTTOM : e0 == BOTTOM ? RIGHT : TOP;
    int dr = e0 == LEFT ? 1 : e0 == RIGHT ? -1 : 0, dc = e0 == TOP ? -1 : e0 == BOTTOM ? 1 : 0;
    VP_ASSERT(!outline_edge(turn, R0, C0) || mark_at(R0, C0) & 1 << turn, "P11 an outline goes on around the same pixel if it can");
    VP_ASSERT(R0 + dr < 0 || C0 + dc < 0 || R0 + dr >= bm.height || C0 + dc >= bm.width || !outline_edge(e0, R0 + dr, C0 + dc) || mark_at(R0 + dr, C0 + dc) & 1 << e0, "P11 an outline goes straight on if it can");
    VP_REACH("stop");
  }
}
#endif

#ifdef VP_CBMC
/* marking a side sets exactly its mark */
void h_mark(void)
{
  unsigned short r, c, i;
  edge_type e = nd_u8();
  at_exception_type x = at_exception_new(NULL, NULL);
  at_color col;
  bm.width = mk.width = nd_u16(); bm.height = mk.height = nd_u16(); bm.np = 1; mk.np = 1;
  R0 = nd_u16(); C0 = nd_u16(); r = nd_u16(); c = nd_u16();
  VP_ASSUME(R0 < bm.height && C0 < bm.width && r < bm.height && c < bm.width && e <= 3 && r + 1 - R0 < 3u && c + 1 - C0 < 3u);
  for (i = 0; i < 9; i++) { ghost_eq[i / 3][i % 3] = nd_bool(); ghost_mark[i / 3][i % 3] = ghost_mark0[i / 3][i % 3] = nd_u8(); }
  VP_ASSERT(is_unmarked_outline_edge(R0, C0, e, &bm, &mk, col, &x) == (outline_edge(e, R0, C0) && !(mark_at(R0, C0) & 1 << e)), "P11 an outline starts exactly at an unfollowed side between two colors");
  mark_edge(e, r, c, &mk);
  VP_ASSERT(is_marked_edge(e, r, c, &mk), "P11 a followed side is marked");
  for (i = 0; i < 9; i++)
    VP_ASSERT(ghost_mark[i / 3][i % 3] == (R0 + i / 3 - 1 == r && C0 + i % 3 - 1 == c ? ghost_mark0[i / 3][i % 3] | 1 << e : ghost_mark0[i / 3][i % 3]), "P11 marking a side marks no other");
  VP_REACH("mark");
}
#endif
