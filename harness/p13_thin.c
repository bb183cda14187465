/* P13: thinning.  Real code: src/thin-image.c */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#ifdef VP_COPY
/* the working copy, by contract: exactly as many bytes as the image has */
static at_bitmap vp_im; static vp_u64 vp_bytes; static int vp_allocs, vp_copies, vp_freed; static vp_u8 vp_store[1];
static void *vp_malloc(size_t n) { VP_ASSERT(n == vp_bytes && ++vp_allocs == 1, "P13 the working copy is as large as the image"); return vp_store; }
static void *vp_memcpy(void *d, const void *s, size_t n) { VP_ASSERT(d == vp_store && s == vp_im.bitmap && n == vp_bytes, "P13 the whole image is copied"); vp_copies++; VP_ASSUME(vp_im.np != 1 && vp_im.np != 3); return d; }
static void vp_free(void *p) { VP_ASSERT(p == vp_store, "P13 the copy is freed"); vp_freed++; }
#define malloc vp_malloc
#define memcpy vp_memcpy
#define free vp_free
#endif
#include "thin-image.c"
#ifdef VP_RUN
#define MAXD 20
static vp_u8 pic[MAXD * MAXD], res[MAXD * MAXD], want[MAXD * MAXD];
static int tint, close_colors;
static vp_u8 colors[4][3] = { { 255, 255, 255 }, { 0, 0, 0 }, { 90, 0, 255 }, { 200, 7, 9 } };
static int W, H, NP, vp_fatals;
static void vp_msg(const char *m, at_msg_type t, void *d) { vp_fatals += t == AT_MSG_FATAL; }
static int at(vp_u8 *p, int y, int x) { return x < 0 || y < 0 || x >= W || y >= H ? 255 : p[y * W + x]; }
/* label the connected parts of the pixels with value v (or all but v) */
static int lab[MAXD * MAXD];
static void flood(vp_u8 *p, int y, int x, int v, int n, int eight)
{
  int dy, dx;
  if (at(p, y, x) != v || lab[y * W + x]) return;
  lab[y * W + x] = n;
  for (dy = -1; dy <= 1; dy++) for (dx = -1; dx <= 1; dx++) if (eight || !dy || !dx) flood(p, y + dy, x + dx, v, n, eight);
}
static int parts(vp_u8 *p, int v, int eight)
{
  int i, n = 0;
  memset(lab, 0, sizeof lab);
  for (i = 0; i < W * H; i++) if (p[i] == v && !lab[i]) flood(p, i / W, i % W, v, ++n, eight);
  return n;
}
/* parts of the background not reaching the border */
static int holes(vp_u8 *p, int bg)
{
  int i, n = parts(p, bg, 0), k = 0, out[MAXD * MAXD + 1];
  memset(out, 0, sizeof out);
  for (i = 0; i < W * H; i++) if (lab[i] && (i % W == 0 || i % W == W - 1 || i < W || i >= W * (H - 1))) out[lab[i]] = 1;
  for (i = 1; i <= n; i++) k += !out[i];
  return k;
}
/* a pixel of its color with all its neighbors in one 8-connected group of two or more can go */
static int simple(vp_u8 *p, int y, int x)
{
  int ring[8], k, n = 0, g = 0, v = at(p, y, x);
  static const int dy[8] = { -1, -1, 0, 1, 1, 1, 0, -1 }, dx[8] = { 0, 1, 1, 1, 0, -1, -1, -1 };
  for (k = 0; k < 8; k++) n += ring[k] = at(p, y + dy[k], x + dx[k]) == v;
  for (k = 0; k < 8; k += 2) g += !ring[k] && (ring[(k + 1) % 8] || ring[(k + 2) % 8]);   /* Hilditch/Yokoi 8-crossing number */
  if (g == 0 && n == 8) g = 1;
  if (g == 0 && n) g = ring[0] || ring[2] || ring[4] || ring[6] ? 1 : g;
  return n >= 2 && g == 1;
}
static void thin_ref(int bg, int color_image)
{
  int v, i, y, x, again;
  static vp_u8 old[MAXD * MAXD];
  static const int dy[4] = { -1, 1, 0, 0 }, dx[4] = { 0, 0, -1, 1 };
  memcpy(want, pic, W * H);
  for (v = 0; v < 4; v++) if (v != bg && W > 1) do {
    again = 0;
    for (i = 0; i < 4; i++) {
      memcpy(old, want, W * H);
      for (y = 0; y < H; y++) for (x = 0; x < W; x++) {
        if (old[y * W + x] != v || at(old, y + dy[i], x + dx[i]) == v || !simple(old, y, x)) continue;
        if (color_image && (i == 1 && y == H - 1 || i == 2 && x == 0 || i == 3 && x == W - 1 && y < H - 1)) continue;   /* a color image keeps its borders in these passes */
        want[y * W + x] = bg; again = 1;
      }
    }
  } while (again);
}
/* colors of luminance 90, the gray used for shapes */
static const vp_u8 tints[3][3] = { { 70, 70, 252 }, { 160, 60, 60 }, { 0, 136, 89 } };
static void one(int bg, int named)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_color c;
  at_exception_type e = at_exception_new(vp_msg, NULL);
  int i, j, v, rep, two = -1;
  char *t = vp_case_text;
  t += sprintf(t, "%dx%d %d plane(s) background %d %s%s pixels ", W, H, NP, bg, tint ? " tinted" : "", close_colors ? " close colors" : "");
  for (i = 0; i < W * H; i++) *t++ = '0' + pic[i];
  *t = 0;
  for (i = 0; i < W * H; i++) for (j = 0; j < NP; j++) b->bitmap[i * NP + j] = colors[pic[i]][j];
  at_color_set(&c, colors[bg][0], NP == 3 ? colors[bg][1] : colors[bg][0], NP == 3 ? colors[bg][2] : colors[bg][0]);
  if (NP == 1 && bg == 2 && tint) at_color_set(&c, tints[tint - 1][0], tints[tint - 1][1], tints[tint - 1][2]);
  vp_fatals = 0;
  if (!named) {   /* an earlier image had another background */
    at_bitmap *o = at_bitmap_new(2, 1, NP);
    at_color k = { 12, 12, 12 };
    thin_image(o, &k, &e);
    at_bitmap_free(o);
  }
  for (rep = 0; rep < 2; rep++) {
    thin_image(b, named ? &c : NULL, &e);
    VP_ASSERT(vp_fatals == 0 && b->width == W && b->height == H && b->np == NP, "P13 thinning keeps the size and raises no error");
    for (i = 0; i < W * H; i++) {
      for (v = 0; v < 4; v++) { for (j = 0; j < NP && b->bitmap[i * NP + j] == colors[v][j]; j++); if (j == NP) break; }
      VP_ASSERT(v == pic[i] || v == bg, "P13 thinning only turns pixels into background");
      if (rep) VP_ASSERT(v == res[i], "P13 a thinned image stays as it is when thinned again");
      res[i] = v;
      if (pic[i] != bg) { if (two < 0) two = pic[i]; else if (two != pic[i]) two = 4; }
    }
  }
  for (v = 0; v < 4; v++) if (v != bg) {
    static int lab0[MAXD * MAXD]; static vp_u8 hit[MAXD * MAXD + 1];
    int n = parts(pic, v, 1);
    memcpy(lab0, lab, sizeof lab);
    VP_ASSERT(parts(res, v, 1) == n, "P13 every connected shape of a color stays one connected shape");
    memset(hit, 0, sizeof hit);
    for (i = 0; i < W * H; i++) if (res[i] == v) hit[lab0[i]] = 1;
    for (i = 1; i <= n; i++) VP_ASSERT(hit[i], "P13 no shape disappears");
  }
  if (two < 4) VP_ASSERT(holes(pic, bg) == holes(res, bg), "P13 no hole appears or disappears");
  thin_ref(bg, NP == 3);
  for (i = 0; i < W * H; i++) VP_ASSERT(res[i] == want[i], "P13 exactly the pixels of Rosenfeld's parallel thinning are removed");
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P13 thinning leaves no memory behind");
  vp_cases++;
}
static void all(int w, int h, int nc, int np, int bg, int named)
{
  int i, n = w * h;
  W = w; H = h; NP = np;
  memset(pic, 0, sizeof pic);
  for (;;) {
    one(bg, named);
    for (i = 0; i < n && ++pic[i] == nc; i++) pic[i] = 0;
    if (i == n) break;
  }
}
void h_all(void)
{
  int w, h;
  for (w = 1; w <= 4; w++) for (h = 1; h <= 4; h++) { all(w, h, 2, 1, 0, 0); all(w, h, 2, 3, 0, 1); }
  all(5, 3, 2, 1, 1, 1); all(3, 5, 2, 3, 1, 1); all(3, 3, 3, 3, 0, 1); all(4, 2, 3, 3, 2, 1); all(3, 3, 3, 1, 0, 0); all(2, 3, 4, 3, 3, 1);
  VP_DONE();
}
void h_54(void) { all(5, 4, 2, 1, 0, 1); all(4, 5, 2, 3, 0, 1); VP_DONE(); }
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
void h_big(void)
{
  static const vp_u8 near[4][3] = { { 90, 20, 30 }, { 90, 20, 31 }, { 90, 21, 30 }, { 91, 20, 30 } };
  vp_u8 far[4][3]; memcpy(far, colors, sizeof far);
  int k, i;
  for (k = 0; k < VP_N; k++) {
    int j, y, x;
    rs = VP_S * 7919 + k;
    W = 1 + rnd(MAXD); H = 1 + rnd(MAXD); NP = rnd(2) ? 3 : 1;
    int nc = 2 + rnd(3), m = 1 + rnd(6);
    memset(pic, 0, sizeof pic);
    for (j = 0; j < m; j++) {   /* blocks, then noise */
      int y0 = rnd(H), x0 = rnd(W), h = 1 + rnd(9), w = 1 + rnd(9), c = rnd(nc);
      for (y = y0; y < y0 + h && y < H; y++) for (x = x0; x < x0 + w && x < W; x++) pic[y * W + x] = c;
    }
    for (j = rnd(2) ? rnd(30) : 0; j > 0; j--) pic[rnd(W * H)] = rnd(nc);
    tint = k % 4 == 1 ? k / 4 % 4 : 0;
    close_colors = NP == 3 && k % 3 == 0;
    memcpy(colors, close_colors ? near : far, sizeof colors);
    i = k % 4 == 1 ? 2 : k % 8 == 3 || close_colors ? rnd(nc) : 0;
    one(i, i || close_colors || rnd(2));
  }
  VP_DONE();
}
/* planes other than 1 and 3 */
void h_planes(void)
{
  int np, i;
  for (np = 0; np <= 8; np++) if (np != 1 && np != 3) {
    at_bitmap *b = at_bitmap_new(3, 2, np);
    at_exception_type e = at_exception_new(vp_msg, NULL);
    for (i = 0; i < 6 * np; i++) b->bitmap[i] = i * 37;
    vp_fatals = 0;
    thin_image(b, NULL, &e);
    VP_ASSERT(vp_fatals == 1 && at_exception_got_fatal(&e), "P13 an image of the wrong kind is refused with one error");
    for (i = 0; i < 6 * np; i++) VP_ASSERT(b->bitmap[i] == (vp_u8)(i * 37), "P13 a refused image is left alone");
    at_bitmap_free(b);
    VP_ASSERT(vp_blocks == 0, "P13 a refused image leaves no memory behind");
    vp_cases++;
  }
  VP_DONE();
}
#endif
#ifdef VP_COPY
static int vp_nfatal; static void vp_m(const char *m, at_msg_type t, void *d) { vp_nfatal += t == AT_MSG_FATAL; }
void h_copy(void)
{
  at_exception_type e = at_exception_new(vp_m, NULL);
  at_color c; vp_u8 one;
  vp_im.width = nd_u16(); vp_im.height = nd_u16(); vp_im.np = nd_u8(); vp_im.bitmap = &one;
  vp_bytes = (vp_u64)vp_im.height * vp_im.width * vp_im.np;
  thin_image(&vp_im, nd_bool() ? &c : NULL, &e);
  VP_ASSERT(vp_nfatal == 1 && vp_allocs == 1 && vp_copies == 1 && vp_freed == 1, "P13 an image of the wrong kind is refused with one error and nothing is leaked");
  VP_REACH("copy");
}
#endif
#ifdef VP_CBMC
/* the table of removable pixels, every neighborhood */
void h_table(void)
{
  unsigned p = nd_u16(), k, n = 0, x = 0;
  VP_ASSUME(p < 512);
  /* ring bits, clockwise from north: b c f i h g d a */
  static const unsigned char ring[8] = { 7, 6, 3, 0, 1, 2, 5, 8 };
  bool f[8];
  for (k = 0; k < 8; k++) n += f[k] = p >> ring[k] & 1;
  for (k = 0; k < 8; k += 2) x += !f[k] && (f[k + 1] || f[(k + 2) % 8]);
  bool one_group = x == 1 || (x == 0 && n == 8) || (x == 0 && n && (f[0] || f[2] || f[4] || f[6]));
  VP_ASSERT((todelete[p] != 0) == ((p >> 4 & 1) && n >= 2 && one_group), "P13 a pixel can go exactly when its neighbors form one connected group of two or more");
  VP_REACH("table");
}
#endif
