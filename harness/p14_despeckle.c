/* P14: despeckling.  Real code: src/despeckle.c */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#include <pthread.h>
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#include "despeckle.c"
#ifdef VP_RUN
#ifndef MAXD
#define MAXD 24
#endif
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
static int W, H, NP, vp_fatals;
static void vp_msg(const char *m, at_msg_type t, void *d) { vp_fatals += t == AT_MSG_FATAL; }
typedef struct { vp_u8 c[3]; } px;
static px pic[MAXD * MAXD], ref[MAXD * MAXD];
static bool eq(px a, px b) { return a.c[0] == b.c[0] && a.c[1] == b.c[1] && a.c[2] == b.c[2]; }
static int dist2(px a, px b) { int i, d = 0; for (i = 0; i < 3; i++) d += (a.c[i] - b.c[i]) * (a.c[i] - b.c[i]); return d; }
static int comp[MAXD * MAXD], ncomp;
static bool in[MAXD * MAXD];
static void area(px *p, int at)   /* connected area of at */
{
  int i, k, y, x;
  static const int dy[4] = { -1, 1, 0, 0 }, dx[4] = { 0, 0, -1, 1 };
  memset(in, 0, sizeof in);
  comp[0] = at; ncomp = 1; in[at] = 1;
  for (i = 0; i < ncomp; i++) for (k = 0; k < 4; k++) {
    y = comp[i] / W + dy[k]; x = comp[i] % W + dx[k];
    if (y >= 0 && x >= 0 && y < H && x < W && !in[y * W + x] && eq(p[y * W + x], p[at])) { in[y * W + x] = 1; comp[ncomp++] = y * W + x; }
  }
}
/* what despeckling should do; false when two different colors are equally near somewhere */
static bool despeckle_ref(int level, float tightness, float noise)
{
  int lv, i, j, k, n = W * H;
  static bool done[MAXD * MAXD];
  static const int dy[4] = { -1, 1, 0, 0 }, dx[4] = { 0, 0, -1, 1 };
  memcpy(ref, pic, sizeof ref);
  while (level > 0 && (double)(1 << level) * sqrt(2) > n * (1 + 1e-9)) level--;
  for (lv = 0; lv < level; lv++) {
    int tight = (int)(noise * 255.0 / (1.0 + (noise * (1.0 + tightness * level) - 1.0) / level * lv));
    memset(done, 0, sizeof done);
    for (i = 0; i < n; i++) if (!done[i]) {
      bool any = 0; px best = { { 0 } };
      area(ref, i);
      for (j = 0; j < ncomp; j++) done[comp[j]] = 1;
      if (ncomp >= 1 << lv) continue;
      for (j = 0; j < ncomp; j++) for (k = 0; k < 4; k++) {
        int y = comp[j] / W + dy[k], x = comp[j] % W + dx[k];
        if (y < 0 || x < 0 || y >= H || x >= W || in[y * W + x]) continue;
        px c = ref[y * W + x];
        if (any && dist2(c, ref[i]) == dist2(best, ref[i]) && !eq(c, best)) return false;
        if (!any || dist2(c, ref[i]) < dist2(best, ref[i])) { any = 1; best = c; }
      }
      if (any && dist2(best, ref[i]) <= 3.0 * tight * tight) for (j = 0; j < ncomp; j++) ref[comp[j]] = best;
    }
  }
  return true;
}
static void one(int level, float tightness, float noise)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_exception_type e = at_exception_new(vp_msg, NULL);
  int i, j, n = W * H;
  char *t = vp_case_text;
  t += sprintf(t, "%dx%d %d plane(s) level %d tightness %g noise %g pixels", W, H, NP, level, tightness, noise);
  for (i = 0; i < n && n <= 576; i++) t += sprintf(t, NP == 1 ? " %02x" : " %02x%02x%02x", pic[i].c[0], pic[i].c[1], pic[i].c[2]);
  for (i = 0; i < n; i++) for (j = 0; j < NP; j++) b->bitmap[i * NP + j] = pic[i].c[j];
  vp_fatals = 0;
  despeckle(b, level, tightness, noise, &e);
  VP_ASSERT(vp_fatals == 0 && b->width == W && b->height == H && b->np == NP, "P14 despeckling keeps the size and raises no error");
  bool known = despeckle_ref(level, tightness, noise);
  for (i = 0; i < n; i++) {
    px c = { { b->bitmap[i * NP], b->bitmap[i * NP + (NP > 1)], b->bitmap[i * NP + (NP > 1) * 2] } };
    if (i && !memcmp(b->bitmap + i * NP, b->bitmap + (i - 1) * NP, NP) && eq(pic[i], pic[i - 1]) && eq(ref[i], ref[i - 1])) continue;
    for (j = 0; j < n && !eq(pic[j], c); j++);
    VP_ASSERT(j < n, "P14 no color appears that was not in the image");
    if (level == 0) VP_ASSERT(eq(c, pic[i]), "P14 level 0 changes nothing");
    if (known) VP_ASSERT(eq(c, ref[i]), "P14 small areas, and only those, take the most similar neighboring color");
  }
  if (!known && n <= 576) {   /* areas that are large enough in every pass keep their color */
    int lv = level;
    for (i = 0; i < n; i++) { area(pic, i); if (lv < 1 || ncomp >= 1 << (lv - 1)) for (j = 0; j < NP; j++) VP_ASSERT(b->bitmap[i * NP + j] == pic[i].c[j], "P14 large areas keep their color"); }
  }
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P14 despeckling leaves no memory behind");
  vp_cases++;
}
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
static px color_of(int k)   /* distances between them all differ */
{
  static const vp_u8 g[5] = { 255, 0, 100, 118, 230 };
  px c = { { g[k], NP == 1 ? g[k] : (vp_u8)(g[k] / 2 + 11 * k), NP == 1 ? g[k] : (vp_u8)(7 * k * k) } };
  return c;
}
#if MAXD > 24
/* large areas */
static void *scale_thread(void *unused)
{
  int k, i, j, y, x;
  for (k = 0; k < VP_N; k++) {
    rs = k + 17; W = k % 4 ? 290 + rnd(60) : MAXD; H = k % 4 ? 320 + rnd(30) : 20 + rnd(400); NP = rnd(3) ? 1 : 3;
    int m = 1 + rnd(8), bg = rnd(2);
    for (i = 0; i < W * H; i++) pic[i] = color_of(bg);
    for (j = 0; j < m; j++) {
      int y0 = rnd(H), x0 = rnd(W), h = 1 + rnd(rnd(2) ? 250 : 40), w = 1 + rnd(rnd(2) ? 250 : 40), c = rnd(5);
      for (y = y0; y < y0 + h && y < H; y++) for (x = x0; x < x0 + w && x < W; x++) pic[y * W + x] = color_of(c);
    }
    one(10 + rnd(12), rnd(2) ? rnd(80) / 10.0f : 0, rnd(3) == 0 ? 1 - rnd(50) / 100.0f : 1);
  }
  return NULL;
}
void h_scale(void)
{
  pthread_attr_t a; pthread_t t;
  pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)1 << 30);
  pthread_create(&t, &a, scale_thread, NULL); pthread_join(t, NULL);
  VP_DONE();
}
#endif
static void all(int w, int h, int nc, int np, int level, float t, float r)
{
  int i, n = w * h; static vp_u8 k[MAXD * MAXD];
  W = w; H = h; NP = np;
  memset(k, 0, sizeof k);
  for (;;) {
    for (i = 0; i < n; i++) pic[i] = color_of(k[i]);
    one(level, t, r);
    for (i = 0; i < n && ++k[i] == nc; i++) k[i] = 0;
    if (i == n) break;
  }
}
void h_all(void)
{
  int w, h, l;
  for (w = 1; w <= 4; w++) for (h = 1; h <= 3; h++) for (l = 0; l <= 4; l++) { all(w, h, 2, 1, l, 0, 1); all(w, h, 2, 3, l, 2, 0.99f); }
  for (l = 0; l <= 3; l++) { all(3, 3, 3, 1, l, 1, 1); all(3, 3, 3, 3, l, 2, 0.9f); all(2, 3, 5, 3, l, 0.5f, 0.8f); }
  all(4, 4, 2, 1, 3, 0, 1); all(4, 4, 2, 3, 4, 0.5f, 1);
  VP_DONE();
}
void h_big(void)
{
  int k, i, j, y, x;
  for (k = 0; k < VP_N; k++) {
    rs = VP_S * 7919 + k;
    W = 1 + rnd(MAXD); H = 1 + rnd(MAXD); NP = rnd(2) ? 3 : 1;
    int nc = 2 + rnd(4), m = rnd(8);
    for (i = 0; i < W * H; i++) pic[i] = color_of(0);
    for (j = 0; j < m; j++) {
      int y0 = rnd(H), x0 = rnd(W), h = 1 + rnd(9), w = 1 + rnd(9), c = rnd(nc);
      for (y = y0; y < y0 + h && y < H; y++) for (x = x0; x < x0 + w && x < W; x++) pic[y * W + x] = color_of(c);
    }
    for (j = rnd(60); j > 0; j--) pic[rnd(W * H)] = color_of(rnd(nc));
    one(rnd(10), rnd(4) ? rnd(80) / 10.0f : 0, rnd(3) ? 1 - rnd(50) / 100.0f : 1);
  }
  VP_DONE();
}
/* the longest rows and columns, and planes other than 1 and 3 */
static void *size_thread(void *unused)
{
  int k, np, i;
  for (k = 0; k < 4; k++) {
    int w = k % 2 ? 2 : 65535, h = k % 2 ? 65535 : 2;
    at_bitmap *b;
    at_exception_type e = at_exception_new(vp_msg, NULL);
    NP = k < 2 ? 1 : 3;
    sprintf(vp_case_text, "%dx%d image of %d planes with one dark pixel", w, h, NP);
    b = at_bitmap_new(w, h, NP);
    memset(b->bitmap, 200, 131070 * NP);
    memset(b->bitmap + 100001 * NP, 150, NP);
    despeckle(b, 2, 0, 1, &e);
    for (i = 0; i < 131070 * NP; i++) VP_ASSERT(b->bitmap[i] == 200, "P14 the largest images are despeckled completely");
    at_bitmap_free(b);
    vp_cases++;
  }
  for (np = 0; np <= 8; np++) if (np != 1 && np != 3) {
    at_bitmap *b = at_bitmap_new(3, 2, np);
    at_exception_type e = at_exception_new(vp_msg, NULL);
    for (i = 0; i < 6 * np; i++) b->bitmap[i] = i * 37;
    vp_fatals = 0;
    sprintf(vp_case_text, "%d planes", np);
    despeckle(b, 2, 0, 1, &e);
    VP_ASSERT(vp_fatals == 1 && at_exception_got_fatal(&e), "P14 an image of the wrong kind is refused with one error");
    for (i = 0; i < 6 * np; i++) VP_ASSERT(b->bitmap[i] == (vp_u8)(i * 37), "P14 a refused image is left alone");
    at_bitmap_free(b);
    vp_cases++;
  }
  VP_ASSERT(vp_blocks == 0, "P14 despeckling leaves no memory behind");
  return NULL;
}
void h_size(void)   /* with room for deep recursion: see h_maze for that */
{
  pthread_attr_t a; pthread_t t;
  pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)1 << 30);
  pthread_create(&t, &a, size_thread, NULL); pthread_join(t, NULL);
  VP_DONE();
}
/* one winding line through a large image */
void h_maze(void)
{
  int n = 1000, x, y;
  at_bitmap *b = at_bitmap_new(n, n, 1);
  at_exception_type e = at_exception_new(vp_msg, NULL);
  sprintf(vp_case_text, "1000x1000 image with one winding line");
  memset(b->bitmap, 255, n * n);
  for (x = 1; x < n; x += 2) for (y = 0; y < n - 1; y++) b->bitmap[(x / 2 % 2 ? y + 1 : y) * n + x] = 0;
  despeckle(b, 3, 2, 0.99f, &e);
  at_bitmap_free(b);
  vp_cases++;
  VP_DONE();
}
#endif
#ifdef VP_CBMC
void h_error(void)
{
  vp_u8 a[3], b[3]; int i, d = 0;
  for (i = 0; i < 3; i++) { a[i] = nd_u8(); b[i] = nd_u8(); d += ((int)a[i] - b[i]) * ((int)a[i] - b[i]); }
  VP_ASSERT(calc_error(a, b) == d, "P14 the difference of two colors is the sum of the squared differences");
  VP_ASSERT(calc_error_8(a, b) == (a[0] > b[0] ? a[0] - b[0] : b[0] - a[0]), "P14 the difference of two grays is its amount");
  VP_REACH("error");
}
#endif
