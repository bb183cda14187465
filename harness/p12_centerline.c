/* P12: centerlines.  Real code: src/pxl-outline.c (find_centerline_pixels and everything below it) */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#ifdef VP_CBMC
#include "input.h"
static unsigned char *vp_pixel(at_bitmap *b, unsigned row, unsigned col);
#undef AT_BITMAP_PIXEL
#define AT_BITMAP_PIXEL(b, row, col) vp_pixel(b, row, col)
#endif
#include "pxl-outline.c"
static int vp_fatals, vp_tag, vp_ptag, vp_ctag, vp_asked, vp_stop_at, vp_reports;
static float vp_last;
static void vp_msg(const char *m, at_msg_type t, void *d) { vp_fatals++; }
static void vp_progress(float p, void *d)
{
  VP_ASSERT(d == &vp_ptag && p >= 0 && p <= 1, "P12 progress lies between zero and one and goes to the caller with the caller's data");
  vp_last = p; vp_reports++;
}
static bool vp_cancel(void *d) { VP_ASSERT(d == &vp_ctag, "P12 cancellation is asked with the caller's data"); return ++vp_asked == vp_stop_at; }
#ifdef VP_RUN
#define MAXD 16
static vp_u8 pic[MAXD * MAXD], seen[MAXD * MAXD], links[MAXD * MAXD][8];
static vp_u8 colors[4][3] = { { 255, 255, 255 }, { 0, 0, 0 }, { 0, 0, 255 }, { 255, 0, 0 } };
static int W, H, NP;
static int nlines;
static bool closed1;
static void one(int bg)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_color c;
  at_exception_type e = at_exception_new(vp_msg, &vp_tag);
  pixel_outline_list_type l;
  unsigned i, j, n = W * H;
  char *t = vp_case_text;
  t += sprintf(t, "%dx%d %d plane(s) background %d pixels ", W, H, NP, bg);
  for (i = 0; i < n; i++) *t++ = '0' + pic[i];
  *t = 0;
  for (i = 0; i < n; i++) for (j = 0; j < NP; j++) b->bitmap[i * NP + j] = colors[pic[i]][j];
  at_color_set(&c, colors[bg][0], NP == 3 ? colors[bg][1] : colors[bg][0], NP == 3 ? colors[bg][2] : colors[bg][0]);
  vp_last = 0; vp_reports = vp_asked = 0; vp_fatals = 0;
  memset(seen, 0, sizeof seen); memset(links, 0, sizeof links);
  l = find_centerline_pixels(b, c, vp_progress, &vp_ptag, vp_cancel, &vp_ctag, &e);
  VP_ASSERT(vp_fatals == 0, "P12 following centerlines raises no error");
  nlines = l.length;
  if (vp_stop_at && vp_asked >= vp_stop_at) VP_ASSERT(l.length == 0, "P12 a cancelled trace returns no lines");
  for (i = 0; i < n; i++) for (j = 0; j < NP; j++) VP_ASSERT(b->bitmap[i * NP + j] == colors[pic[i]][j], "P12 following centerlines leaves the image alone");
  for (i = 0; i < l.length; i++) {
    pixel_outline_type *o = &l.data[i];
    unsigned k;
    closed1 = !o->open;
    VP_ASSERT(o->length >= 2 && o->data, "P12 a line has at least two pixels");
    VP_ASSERT(!o->clockwise, "P12 a line is not a hole");
    for (k = 0; k < o->length; k++) {
      at_coord a = o->data[k];
      VP_ASSERT(a.x < W && a.y < H, "P12 a line stays inside the image");
      unsigned at = (H - 1 - a.y) * W + a.x;
      seen[at] = 1;
      VP_ASSERT(pic[at] != bg, "P12 a line has no background pixel");
      VP_ASSERT(o->color.r == colors[pic[at]][0] && (NP == 1 || o->color.g == colors[pic[at]][1] && o->color.b == colors[pic[at]][2]), "P12 every pixel of a line has its color");
      if (k + 1 < o->length || !o->open) {
        at_coord z = o->data[(k + 1) % o->length];
        int dx = (int)z.x - a.x, dy = (int)z.y - a.y;
        VP_ASSERT(dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 && (dx || dy), "P12 consecutive pixels of a line are neighbors, also the last and the first of a closed line");
      }
    }
  }
  free_pixel_outline_list(&l);
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P12 following and freeing centerlines leaves no memory behind");
  vp_cases++;
}
static void all(int w, int h, int nc, int np, int bg)
{
  unsigned i, n = w * h;
  W = w; H = h; NP = np;
  memset(pic, 0, sizeof pic);
  for (;;) {
    one(bg);
    for (i = 0; i < n && ++pic[i] == nc; i++) pic[i] = 0;
    if (i == n) break;
  }
}
void h_all(void)
{
  int w, h;
  for (w = 1; w <= 4; w++) for (h = 1; h <= 4; h++) all(w, h, 2, 1, 0);
  all(5, 3, 2, 1, 0); all(3, 5, 2, 1, 1); all(3, 3, 3, 3, 0); all(4, 3, 3, 3, 2);
  for (vp_stop_at = 1; vp_stop_at <= 2; vp_stop_at++) all(3, 3, 2, 1, 0);
  vp_stop_at = 0;
  VP_DONE();
}
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
void h_big(void)
{
  static const vp_u8 near[4][3] = { { 90, 20, 30 }, { 90, 20, 31 }, { 90, 21, 30 }, { 91, 20, 30 } };
  vp_u8 far[4][3]; memcpy(far, colors, sizeof far);
  int k, i;
  for (k = 0; k < VP_N; k++) {
    rs = VP_S * 7919 + k;
    W = 1 + rnd(MAXD); H = 1 + rnd(MAXD); NP = rnd(2) ? 3 : 1;
    int nc = NP == 1 ? 2 : 2 + rnd(3), den = 1 + rnd(6);
    for (i = 0; i < W * H; i++) pic[i] = rnd(den) ? 0 : i >= W && rnd(3) ? pic[i - W] : rnd(nc);
    memcpy(colors, NP == 3 && k % 3 == 0 ? near : far, sizeof colors);
    one(0);
  }
  VP_DONE();
}
/* plain lines: every straight line, every rectangle outline, away from the first row and column */
void h_lines(void)
{
  int r, c, d, len, k;
  W = H = 9; NP = 1;
  for (d = 0; d < 4; d++) for (len = 2; len <= 7; len++) for (r = 1; r < 8; r++) for (c = 1; c < 8; c++) {
    int dr = d == 0 ? 0 : 1, dc = d == 1 ? 0 : d == 3 ? -1 : 1;
    if (r + dr * (len - 1) > 8 || c + dc * (len - 1) > 8 || c + dc * (len - 1) < 1) continue;
    memset(pic, 0, sizeof pic);
    for (k = 0; k < len; k++) pic[(r + dr * k) * W + c + dc * k] = 1;
    one(0);
    VP_ASSERT(nlines == 1 && !closed1, "P12 a straight line is found as one open line");
    for (k = 0; k < len; k++) VP_ASSERT(seen[(r + dr * k) * W + c + dc * k], "P12 a straight line is found whole");
  }
  for (r = 1; r < 7; r++) for (c = 1; c < 7; c++) for (k = r + 2; k < 9; k++) for (d = c + 2; d < 9; d++) {
    int x, y;
    memset(pic, 0, sizeof pic);
    for (y = r; y <= k; y++) for (x = c; x <= d; x++) if (y == r || y == k || x == c || x == d) pic[y * W + x] = 1;
    one(0);
    for (x = 0; x < W * H; x++) VP_ASSERT(seen[x] == pic[x], "P12 a rectangle is found whole");
  }
  VP_DONE();
}
/* lines that wind: every pixel touches only the one before and the one after */
static int touch(int r, int c) { int i, j, n = 0; for (i = -1; i <= 1; i++) for (j = -1; j <= 1; j++) if ((i || j) && r + i >= 0 && c + j >= 0 && r + i < H && c + j < W) n += pic[(r + i) * W + c + j]; return n; }
void h_winding(void)
{
  int k, i, t, r, c;
  for (k = 0; k < VP_N; k++) {
    rs = VP_S * 104729 + k;
    W = 4 + rnd(13); H = 4 + rnd(13); NP = 1;
    memset(pic, 0, sizeof pic);
    int len = 1, want = 2 + rnd(40), r0, c0;
    r0 = r = 1 + rnd(H - 1); c0 = c = 1 + rnd(W - 1);
    pic[r * W + c] = 1;
    for (t = 0; t < 400 && len < want; t++) {
      int y = r + (int)rnd(3) - 1, x = c + (int)rnd(3) - 1;
      if (y < 1 || x < 1 || y >= H || x >= W || pic[y * W + x] || touch(y, x) != 1) continue;
      pic[y * W + x] = 1; r = y; c = x; len++;
      if (rnd(3) == 0) { int z = r; r = r0; r0 = z; z = c; c = c0; c0 = z; }
    }
    if (len < 2) continue;
    one(0);
    for (i = 0; i < W * H; i++) VP_ASSERT(seen[i] == pic[i], "P12 a winding line is found whole");
    VP_ASSERT(nlines == 1 && !closed1, "P12 a winding line is found as one open line");
  }
  VP_DONE();
}
void h_huge(void)
{
  int k, i;
  for (k = 0; k < 2; k++) {
    at_bitmap *b = at_bitmap_new(k ? 3 : 65535, k ? 65535 : 3, 1);
    at_exception_type e = at_exception_new(vp_msg, &vp_tag);
    at_color bg = { 255, 255, 255 };
    pixel_outline_list_type l;
    memset(b->bitmap, 255, 65535 * 3);
    for (i = 1; i < 65535; i++) b->bitmap[k ? i * 3 + 1 : 65535 + i] = 0;
    sprintf(vp_case_text, "a %s of 65534 black pixels", k ? "column" : "row");
    l = find_centerline_pixels(b, bg, vp_progress, &vp_ptag, NULL, NULL, &e);
    VP_ASSERT(l.length == 1 && l.data[0].length == 65534 && l.data[0].open, "P12 the largest images are followed completely");
    free_pixel_outline_list(&l);
    at_bitmap_free(b);
    vp_cases++;
  }
  VP_DONE();
}
#endif
#ifdef VP_CBMC
static at_bitmap bm, mk;
static unsigned short R0, C0;
static vp_u8 ghost_col[3][3], ghost_mark[4][3], ghost_mark0[3][3];
bool at_bitmap_equal_color(const at_bitmap *b, unsigned int row, unsigned int col, at_color *c)
{
  unsigned dr = row + 1 - R0, dc = col + 1 - C0;
  VP_ASSERT(b == &bm && row < bm.height && col < bm.width, "P12 only pixels inside the image are looked at");
  return c->r == (dr < 3 && dc < 3 ? ghost_col[dr][dc] : nd_u8());
}
void at_bitmap_get_color(const at_bitmap *b, unsigned int row, unsigned int col, at_color *c)
{
  unsigned dr = row + 1 - R0, dc = col + 1 - C0;
  VP_ASSERT(b == &bm && row < bm.height && col < bm.width, "P12 only pixels inside the image are looked at");
  c->r = dr < 3 && dc < 3 ? ghost_col[dr][dc] : nd_u8();
}
static unsigned char *vp_pixel(at_bitmap *b, unsigned row, unsigned col)
{
  unsigned dr = row + 1 - R0, dc = col + 1 - C0;
  VP_ASSERT(b == &mk && row < mk.height && col < mk.width, "P12 only marks inside the image are looked at");
  return dr < 3 && dc < 3 ? &ghost_mark[dr][dc] : &ghost_mark[3][0];
}
static void any_place(void)
{
  unsigned i;
  bm.width = mk.width = nd_u16(); bm.height = mk.height = nd_u16(); bm.np = 1; mk.np = 1;
  R0 = nd_u16(); C0 = nd_u16();
  VP_ASSUME(R0 < bm.height && C0 < bm.width);
  for (i = 0; i < 9; i++) { ghost_col[i / 3][i % 3] = nd_u8(); ghost_mark[i / 3][i % 3] = ghost_mark0[i / 3][i % 3] = nd_u8(); }
}
static int dr_of(int d) { return d == NORTH || d == NORTHWEST || d == NORTHEAST ? -1 : d == SOUTH || d == SOUTHWEST || d == SOUTHEAST ? 1 : 0; }
static int dc_of(int d) { return d == WEST || d == NORTHWEST || d == SOUTHWEST ? -1 : d == EAST || d == NORTHEAST || d == SOUTHEAST ? 1 : 0; }
/* one step along a centerline, any image, any place */
void h_step(void)
{
  unsigned i;
  any_place();
  unsigned short r = R0, c = C0;
  direction_type d = nd_u8(), d0 = d;
  VP_ASSUME(d <= 7);
  bool go = next_unmarked_pixel(&r, &c, &d, &bm, &mk);
  for (i = 0; i < 9; i++) VP_ASSERT(ghost_mark[i / 3][i % 3] == ghost_mark0[i / 3][i % 3], "P12 looking for the next pixel marks nothing");
  if (go) {
    VP_ASSERT(d <= 7 && r == R0 + dr_of(d) && c == C0 + dc_of(d), "P12 the next pixel is a neighbor, in the direction reported");
    VP_ASSERT(r < bm.height && c < bm.width, "P12 the next pixel lies inside the image");
    VP_ASSERT(ghost_col[1 + dr_of(d)][1 + dc_of(d)] == ghost_col[1][1], "P12 the next pixel has the color of the line");
    VP_ASSERT(!(ghost_mark0[1][1] & 1 << d), "P12 a line goes no way twice");
    VP_REACH("go");
  } else VP_REACH("stop");
}
void h_mark(void)
{
  unsigned i;
  any_place();
  direction_type d = nd_u8();
  VP_ASSUME(d <= 7);
  VP_ASSERT(is_marked_dir(R0, C0, d, &mk) == ((ghost_mark0[1][1] >> d & 1) != 0), "P12 a way is marked exactly when it was taken");
  VP_ASSERT(is_other_dir_marked(R0, C0, d, &mk) == ((ghost_mark0[1][1] & ~(1 << d) & ~(1 << (d + 4) % 8)) != 0), "P12 crossing lines are noticed");
  mark_dir(R0, C0, d, &mk);
  for (i = 0; i < 9; i++) VP_ASSERT(ghost_mark[i / 3][i % 3] == (i == 4 ? ghost_mark0[1][1] | 1 << d : ghost_mark0[i / 3][i % 3]), "P12 marking a way marks no other");
  VP_REACH("mark");
}
void h_neighbors(void)
{
  unsigned i, n = 0;
  any_place();
  for (i = 0; i < 9; i++) {
    int r = R0 + (int)(i / 3) - 1, c = C0 + (int)(i % 3) - 1;
    if (i != 4 && r >= 0 && c >= 0 && r < bm.height && c < bm.width && ghost_col[i / 3][i % 3] == ghost_col[1][1]) n++;
  }
  VP_ASSERT(num_neighbors(R0, C0, &bm) == n, "P12 the neighbors of a pixel are those of its color inside the image");
  VP_REACH("neighbors");
}
#endif
