/* P16: distance maps.  Real code: src/image-proc.c */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#include "image-proc.c"
#ifdef VP_RUN
#define MAXD 20
static int W, H, NP, T;
static vp_u8 pic[MAXD * MAXD * 3];
static double want[MAXD * MAXD], wt[MAXD * MAXD];
static int gray_of(int i) { vp_u8 *p = pic + i * NP; return NP == 3 ? (int)(p[0] * 0.30 + p[1] * 0.59 + p[2] * 0.11 + 0.5) : p[0]; }
/* lengths of the shortest ways out: to a pixel of the target gray or past the border; a step costs its length times the darkness of the pixel left */
static void ways(void)
{
  int i, dy, dx, again = 1;
  for (i = 0; i < W * H; i++) {
    int y = i / W, x = i % W, g = gray_of(i);
    wt[i] = 1 - g / 255.0;
    want[i] = g == T ? 0 : y == 0 || x == 0 || y == H - 1 || x == W - 1 ? wt[i] : 1e10;
  }
  while (again) {
    again = 0;
    for (i = 0; i < W * H; i++) for (dy = -1; dy <= 1; dy++) for (dx = -1; dx <= 1; dx++) {
      int y = i / W + dy, x = i % W + dx;
      if (dy == 0 && dx == 0 || y < 0 || x < 0 || y >= H || x >= W) continue;
      double d = want[y * W + x] + wt[i] * (dy && dx ? M_SQRT2 : 1);
      if (d < want[i] - 1e-12) { want[i] = d; again = 1; }
    }
  }
}
static void one(int target)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_exception_type e = at_exception_new(NULL, NULL);
  int i, y, x, two = 1;
  char *t = vp_case_text;
  at_distance_map m;
  T = target;
  t += sprintf(t, "%dx%d %d plane(s) target %d pixels", W, H, NP, T);
  for (i = 0; i < W * H * NP; i++) t += sprintf(t, " %02x", pic[i]);
  if (W * H) memcpy(b->bitmap, pic, W * H * NP);
  m = new_distance_map(b, T, true, &e);
  ways();
  VP_ASSERT(m.width == W && m.height == H && m.d && m.weight, "P16 the map has the size of the image");
  VP_ASSERT(W * H == 0 || !memcmp(b->bitmap, pic, W * H * NP), "P16 the image is left alone");
  for (i = 0; i < W * H; i++) if (gray_of(i) != T && gray_of(i) != 0) two = 0;
  for (y = 0; y < H; y++) for (x = 0; x < W; x++) {
    double d = m.d[y][x], w = want[y * W + x];
    VP_ASSERT(fabs(m.weight[y][x] - wt[y * W + x]) < 1e-5, "P16 the weight of a pixel is its darkness");
    if (gray_of(y * W + x) == T) VP_ASSERT(d == 0, "P16 the distance is zero on the target");
    VP_ASSERT(d >= w - 1e-3, "P16 no distance is shorter than the shortest way out");
    if (y == 0 || x == 0 || y == H - 1 || x == W - 1) VP_ASSERT(d <= wt[y * W + x] + 1e-5, "P16 border pixels are at most one step away");
    if (two) VP_ASSERT(fabs(d - w) < 1e-3, "P16 in a two-tone image every distance is that of the shortest way out");
    if (y < H - 1 && x < W - 1) {
      double s = wt[y * W + x];
      VP_ASSERT(d <= m.d[y][x + 1] + s + 1e-3 && d <= m.d[y + 1][x] + s + 1e-3 && d <= m.d[y + 1][x + 1] + s * M_SQRT2 + 1e-3 && (x == 0 || d <= m.d[y + 1][x - 1] + s * M_SQRT2 + 1e-3), "P16 no distance exceeds a way over a following neighbor");
    }
  }
  free_distance_map(&m);
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P16 a freed map leaves no memory behind");
  vp_cases++;
}
static void all(int w, int h, int np, const vp_u8 *tones, int nt, int target)
{
  int i, j, n = w * h; vp_u8 k[MAXD * MAXD];
  W = w; H = h; NP = np;
  memset(k, 0, sizeof k);
  for (;;) {
    for (i = 0; i < n; i++) for (j = 0; j < np; j++) pic[i * np + j] = tones[k[i]];
    one(target);
    for (i = 0; i < n && ++k[i] == nt; i++) k[i] = 0;
    if (i == n) break;
  }
}
void h_all(void)
{
  int w, h;
  for (w = 1; w <= 4; w++) for (h = 1; h <= 4; h++) all(w, h, w == 4 && h == 4 ? 1 : 3, (vp_u8 *)"\377\0", 2, 255);
  all(5, 3, 1, (vp_u8 *)"\377\0", 2, 255); all(3, 5, 1, (vp_u8 *)"\0\377", 2, 255); all(3, 3, 1, (vp_u8 *)"\377\0\200", 3, 255); all(3, 3, 3, (vp_u8 *)"\377\0\100", 3, 255); all(4, 3, 1, (vp_u8 *)"\200\0", 2, 128);
  W = 0; H = 0; NP = 1; one(255); W = 3; one(255); W = 0; H = 3; one(255);
  VP_DONE();
}
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
void h_big(void)
{
  int k, i, j;
  for (k = 0; k < VP_N; k++) {
    rs = (VP_S * 10000 + k) * 7919;
    W = 1 + rnd(MAXD); H = 1 + rnd(MAXD); NP = rnd(2) ? 3 : 1;
    int kind = rnd(4), den = 1 + rnd(40);
    for (i = 0; i < W * H; i++) {
      int v = rnd(den) ? 0 : 255;
      for (j = 0; j < NP; j++) pic[i * NP + j] = kind == 0 ? rnd(256) : kind == 1 ? v : kind == 2 ? (v ? 255 : rnd(255)) : v ? 255 : 80;
    }
    one(kind == 3 ? 80 : 255);
  }
  VP_DONE();
}
#endif
#ifdef VP_CBMC
/* weights and starting distances, every gray and color */
void h_weight(void)
{
  at_exception_type e = at_exception_new(NULL, NULL);
  vp_u8 p[3]; vp_u8 t = nd_u8(); at_bitmap b; at_distance_map m; int g;
  bool color = nd_bool();
  p[0] = nd_u8(); p[1] = nd_u8(); p[2] = nd_u8();
  b.width = b.height = 1; b.np = color ? 3 : 1; b.bitmap = p;
  m = new_distance_map(&b, t, false, &e);
  VP_ASSERT(m.width == 1 && m.height == 1, "P16 the map has the size of the image");
  if (!color) {
    VP_ASSERT((m.d[0][0] == 0) == (p[0] == t), "P16 the distance is zero exactly on the target");
    VP_ASSERT(m.weight[0][0] * 255 - (255 - p[0]) < 0.001f && m.weight[0][0] * 255 - (255 - p[0]) > -0.001f, "P16 the weight of a pixel is its darkness");
  }
  VP_ASSERT(m.weight[0][0] >= -1e-6f && m.weight[0][0] <= 1 && m.d[0][0] >= 0, "P16 weights and distances are never negative");
  free_distance_map(&m);
  VP_REACH("weight");
}
#endif
