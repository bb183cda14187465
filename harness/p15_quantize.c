/* P15: color reduction.  Real code: src/median.c */
#include "autotrace.h"
#include "vp.h"
#ifdef VP_RUN
#include "vp_run.h"
#endif
#include "logreport.c"
#include "color.c"
#include "exception.c"
#ifdef VP_RUN
#include "autotrace.c"
#endif
#include "median.c"
#ifdef VP_RUN
#define MAXP 1600
static int W, H, NP, vp_fatals;
static void vp_msg(const char *m, at_msg_type t, void *d) { vp_fatals += t == AT_MSG_FATAL; }
static vp_u8 pic[MAXP * 3];
static int scaled(int r, int g, int b, at_color c) { return 4 * (r - c.r) * (r - c.r) + 9 * (g - c.g) * (g - c.g) + (b - c.b) * (b - c.b); }
static int distinct(const vp_u8 *p, int n, int np, int shift)
{
  static vp_u8 seen[MAXP * 3];
  int i, j, k = 0;
  for (i = 0; i < n; i++) {
    vp_u8 c[3] = { p[i * np] >> shift, p[i * np + (np > 1)] >> shift, p[i * np + 2 * (np > 1)] >> shift };
    for (j = 0; j < k && memcmp(seen + 3 * j, c, 3); j++);
    if (j == k) { memcpy(seen + 3 * k, c, 3); k++; }
  }
  return k;
}
static void one(long nc, at_color *bg)
{
  at_bitmap *b = at_bitmap_new(W, H, NP);
  at_exception_type e = at_exception_new(vp_msg, NULL);
  QuantizeObj *q = NULL;
  at_color bg0;
  int i, j, n = W * H, cells, most;
  char *t = vp_case_text;
  t += sprintf(t, "%dx%d %d plane(s) to %ld colors, background ", W, H, NP, nc);
  t += bg ? sprintf(t, "%02x%02x%02x pixels", bg->r, bg->g, bg->b) : sprintf(t, "none pixels");
  for (i = 0; i < n * NP && i < 300; i++) t += sprintf(t, " %02x", pic[i]);
  memcpy(b->bitmap, pic, n * NP);
  if (bg) bg0 = *bg;
  vp_fatals = 0;
  quantize(b, nc, bg, &q, &e);
  VP_ASSERT(vp_fatals == 0 && q && b->width == W && b->height == H && b->np == NP, "P15 reducing colors keeps the size and raises no error");
  VP_ASSERT(!bg || at_color_equal(bg, &bg0), "P15 the background color is left alone");
  most = nc > 256 ? 256 : nc;
  VP_ASSERT(q->actual_number_of_colors >= 1 && q->actual_number_of_colors <= most, "P15 the palette has at most the requested number of colors");
  VP_ASSERT(distinct(b->bitmap, n, NP, 0) <= most, "P15 the image has at most the requested number of colors");
  cells = distinct(pic, n, NP, 1);
  for (i = 0; i < n; i++) {
    vp_u8 *o = pic + i * NP, *z = b->bitmap + i * NP;
    int g = NP > 1, best = 0, is_bg = bg && o[0] == bg->r && (!g || o[1] == bg->g && o[2] == bg->b);
    at_color got = { z[0], z[g], z[2 * g] }, want;
    bool nearest;
    if (is_bg) VP_ASSERT(z[0] == bg->r && (!g || z[1] == bg->g && z[2] == bg->b), "P15 background pixels stay background");
    /* nearest palette color of the cell of 2x2x2 colors the pixel is in; background color for the palette color nearest to it */
    int r = o[0] | 1, gr = o[g] | 1, bl = o[2 * g] | 1, m = scaled(r, gr, bl, q->cmap[0]);
    for (j = 1; j < q->actual_number_of_colors; j++) if (scaled(r, gr, bl, q->cmap[j]) < m) m = scaled(r, gr, bl, q->cmap[j]);
    nearest = false;
    for (j = 0; j < q->actual_number_of_colors; j++) if (scaled(r, gr, bl, q->cmap[j]) == m) {
      if (got.r == q->cmap[j].r && (!g || got.g == q->cmap[j].g && got.b == q->cmap[j].b)) nearest = true;
      if (bg && got.r == bg->r && (!g || got.g == bg->g && got.b == bg->b)) {
        int k, mb = scaled(bg->r | 1, bg->g | 1, bg->b | 1, q->cmap[0]);
        for (k = 1; k < q->actual_number_of_colors; k++) if (scaled(bg->r | 1, bg->g | 1, bg->b | 1, q->cmap[k]) < mb) mb = scaled(bg->r | 1, bg->g | 1, bg->b | 1, q->cmap[k]);
        for (k = 0; k < q->actual_number_of_colors; k++)
          if (scaled(bg->r | 1, bg->g | 1, bg->b | 1, q->cmap[k]) == mb && q->cmap[k].r == q->cmap[j].r && (!g || q->cmap[k].g == q->cmap[j].g && q->cmap[k].b == q->cmap[j].b)) nearest = true;
      }
    }
    VP_ASSERT(nearest, "P15 every pixel takes the nearest palette color, the background color where that is nearest");
    if (cells <= most && !is_bg && !bg) for (j = 0; j < NP; j++) VP_ASSERT(z[j] >= o[j] - 1 && z[j] <= o[j] + 1, "P15 an image with few enough colors keeps them");
    for (j = 0; j < i && j < 40; j++) if (!memcmp(o, pic + j * NP, NP)) VP_ASSERT(!memcmp(z, b->bitmap + j * NP, NP), "P15 equal pixels stay equal");
  }
  quantize_object_free(q);
  at_bitmap_free(b);
  VP_ASSERT(vp_blocks == 0, "P15 color reduction leaves no memory behind");
  vp_cases++;
}
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
#ifndef VP_N
#define VP_N 1
#define VP_S 1
#endif
/* every choice of up to four pixels from a few colors */
void h_all(void)
{
  static const vp_u8 col[6][3] = { { 255, 255, 255 }, { 0, 0, 0 }, { 254, 255, 255 }, { 255, 0, 0 }, { 128, 127, 64 }, { 0, 3, 255 } };
  int np, n, i, nc, bg; long v;
  for (np = 1; np <= 3; np += 2) for (n = 1; n <= 2 + (np == 3); n++) {
    long total = 1;
    for (i = 0; i < n; i++) total *= 6;
    for (v = 0; v < total; v++) {
      long x = v;
      W = n; H = 1; NP = np;
      for (i = 0; i < n; i++, x /= 6) memcpy(pic + i * np, col[x % 6], np);
      nc = 1 + v % 4;
      for (bg = -1; bg < 2; bg++) {
        at_color c;
        at_color_set(&c, col[bg < 0 ? 0 : bg * 3][0], col[bg < 0 ? 0 : bg * (np == 3 ? 3 : 0)][1], col[bg < 0 ? 0 : bg * (np == 3 ? 3 : 0)][2]);
        if (np == 1) c.g = c.b = c.r;
        one(nc, bg < 0 ? NULL : &c);
      }
    }
  }
  VP_DONE();
}
void h_big(void)
{
  int k, i, j;
  for (k = 0; k < VP_N; k++) {
    rs = (VP_S * 10000 + k) * 7919;
    at_color c;
    W = 1 + rnd(40); H = 1 + rnd(40); NP = rnd(2) ? 3 : 1;
    int kind = rnd(4), m = 1 + rnd(300), base = rnd(200);
    for (i = 0; i < W * H * NP; i++) pic[i] = kind == 0 ? rnd(256) : kind == 1 ? base + rnd(40) : kind == 2 ? (i / NP % m) * (i % NP + 3) : rnd(4) * 85;
    at_color_set(&c, pic[0], pic[NP > 1], pic[2 * (NP > 1)]);
    if (rnd(3) == 0) { at_color_set(&c, 255, 255, 255); }
    static const int counts[] = { 1, 2, 3, 5, 8, 16, 100, 255, 256, 257, 1000, 100000 };
    one(counts[rnd(12)], rnd(2) ? &c : NULL);
  }
  VP_DONE();
}
/* all background; planes other than 1 and 3; a palette used again */
void h_special(void)
{
  int np, i, nc;
  at_color white = { 255, 255, 255 };
  for (np = 1; np <= 3; np += 2) for (nc = 1; nc < 4; nc++) { NP = np; W = 5; H = 3; memset(pic, 255, sizeof pic); one(nc, &white); one(nc, NULL); }
  for (np = 0; np <= 8; np++) if (np != 1 && np != 3) {
    at_bitmap *b = at_bitmap_new(3, 2, np);
    at_exception_type e = at_exception_new(vp_msg, NULL);
    QuantizeObj *q = NULL;
    for (i = 0; i < 6 * np; i++) b->bitmap[i] = i * 37;
    vp_fatals = 0;
    sprintf(vp_case_text, "%d planes", np);
    quantize(b, 4, NULL, &q, &e);
    VP_ASSERT(vp_fatals == 1 && !q && at_exception_got_fatal(&e), "P15 an image of the wrong kind is refused with one error");
    for (i = 0; i < 6 * np; i++) VP_ASSERT(b->bitmap[i] == (vp_u8)(i * 37), "P15 a refused image is left alone");
    at_bitmap_free(b);
    VP_ASSERT(vp_blocks == 0, "P15 color reduction leaves no memory behind");
    vp_cases++;
  }
  for (np = 1; np <= 3; np += 2) {   /* no palette object: same result, nothing leaked */
    at_bitmap *b = at_bitmap_new(16, 16, np), *c;
    at_exception_type e = at_exception_new(vp_msg, NULL);
    QuantizeObj *q = NULL;
    for (i = 0; i < 256 * np; i++) b->bitmap[i] = i * i / 7;
    c = at_bitmap_copy(b);
    sprintf(vp_case_text, "without palette object, %d planes", np);
    quantize(b, 7, NULL, NULL, &e); quantize(c, 7, NULL, &q, &e);
    VP_ASSERT(!memcmp(b->bitmap, c->bitmap, 256 * np), "P15 the colors do not depend on whether the palette is asked for");
    quantize_object_free(q);
    at_bitmap_free(b); at_bitmap_free(c);
    VP_ASSERT(vp_blocks == 0, "P15 color reduction leaves no memory behind");
    vp_cases++;
  }
  VP_DONE();
}
#endif
#ifdef VP_CBMC
#ifndef VP_C
#define VP_C 2
#endif
/* the candidates for a block of cells contain the nearest palette color of each of its cells */
void h_nearby(void)
{
  static QuantizeObj q; int list[MAXNUMCOLORS], n, i, a = nd_u8() % VP_C; bool listed = false, better = false;
  int R = nd_u8() % 8, G = nd_u8() % 8, B = nd_u8() % 8, r, g, b;
  q.actual_number_of_colors = VP_C;
  for (i = 0; i < VP_C; i++) { q.cmap[i].r = nd_u8(); q.cmap[i].g = nd_u8(); q.cmap[i].b = nd_u8(); }
  n = find_nearby_colors(&q, (R << BOX_R_SHIFT) + 1, (G << BOX_G_SHIFT) + 1, (B << BOX_B_SHIFT) + 1, list);
  VP_ASSERT(n >= 1 && n <= VP_C, "P15 there is always a candidate");
  for (i = 0; i < n; i++) { VP_ASSERT(list[i] >= 0 && list[i] < VP_C && (i == 0 || list[i] > list[i - 1]), "P15 candidates are palette entries"); if (list[i] == a) listed = true; }
#ifdef VP_NEAR
  r = (R << BOX_R_SHIFT) + 1 + 2 * (nd_u8() % 16); g = (G << BOX_G_SHIFT) + 1 + 2 * (nd_u8() % 16); b = (B << BOX_B_SHIFT) + 1 + 2 * (nd_u8() % 16);
#define SC(k) (4 * (r - q.cmap[k].r) * (r - q.cmap[k].r) + 9 * (g - q.cmap[k].g) * (g - q.cmap[k].g) + (b - q.cmap[k].b) * (b - q.cmap[k].b))
  for (i = 0; i < n; i++) if (SC(list[i]) < SC(a)) better = true;
  VP_ASSERT(listed || better, "P15 a palette color that is no candidate is farther than one that is");
#endif
  VP_REACH("nearby");
}
/* one split of the median cut, from any list of boxes; callees by contract (h_biggest; boxes only shrink) */
static box vp_list[4]; static int vp_k, vp_n; static bool vp_any;
boxptr vp_biggest(boxptr l, int n) { VP_ASSERT(l == vp_list && n == vp_n, "P15 all boxes so far are looked at"); return vp_any ? &vp_list[vp_k] : 0; }
static box vp_got[2]; static boxptr vp_upd[3]; static int vp_ups;
void vp_update(Histogram h, boxptr b) { VP_ASSERT(vp_ups < 2, "P15 two boxes change in a split"); vp_got[vp_ups] = *b; vp_upd[vp_ups++] = b; }
#define OKBOX(b) (0 <= (b).Rmin && (b).Rmin <= (b).Rmax && (b).Rmax < HIST_R_ELEMS && 0 <= (b).Gmin && (b).Gmin <= (b).Gmax && (b).Gmax < HIST_G_ELEMS && 0 <= (b).Bmin && (b).Bmin <= (b).Bmax && (b).Bmax < HIST_B_ELEMS)
#define INSIDE(b, r, g, bl) ((b).Rmin <= (r) && (r) <= (b).Rmax && (b).Gmin <= (g) && (g) <= (b).Gmax && (b).Bmin <= (bl) && (bl) <= (b).Bmax)
void h_split(void)
{
  box old, other; int r = nd_u8(), g = nd_u8(), b = nd_u8(), o = nd_u8(), n;
  vp_n = nd_u8(); vp_k = nd_u8(); vp_any = nd_bool();
  VP_ASSUME(vp_n >= 1 && vp_n <= 3 && vp_k < vp_n && o < vp_n && o != vp_k);
  old.Rmin = nd_u8(); old.Rmax = nd_u8(); old.Gmin = nd_u8(); old.Gmax = nd_u8(); old.Bmin = nd_u8(); old.Bmax = nd_u8();
  VP_ASSUME(OKBOX(old) && (old.Rmin < old.Rmax || old.Gmin < old.Gmax || old.Bmin < old.Bmax));
  vp_list[vp_k] = old; other = vp_list[o];
  n = median_cut_rgb(NULL, vp_list, vp_n, vp_n + 1);
  if (!vp_any) { VP_ASSERT(n == vp_n && vp_ups == 0, "P15 splitting ends when no box can be split"); VP_REACH("none"); return; }
  VP_ASSERT(n == vp_n + 1 && vp_ups == 2, "P15 a split makes one box more");
  VP_ASSERT(vp_upd[0] == &vp_list[vp_k] && vp_upd[1] == &vp_list[vp_n], "P15 the halves take the place of the box and the next free place");
  VP_ASSERT(OKBOX(vp_got[0]) && OKBOX(vp_got[1]), "P15 no half is empty");
  VP_ASSERT(INSIDE(old, r, g, b) == (INSIDE(vp_got[0], r, g, b) || INSIDE(vp_got[1], r, g, b)), "P15 the halves contain what the box did");
  VP_ASSERT(!(INSIDE(vp_got[0], r, g, b) && INSIDE(vp_got[1], r, g, b)), "P15 the halves do not overlap");
  VP_ASSERT(other.Rmin == vp_list[o].Rmin && other.Rmax == vp_list[o].Rmax && other.Gmin == vp_list[o].Gmin && other.Gmax == vp_list[o].Gmax && other.Bmin == vp_list[o].Bmin && other.Bmax == vp_list[o].Bmax, "P15 other boxes are left alone");
  VP_REACH("split");
}
/* the driver, passes by contract */
static QuantizeObj vp_q, vp_mine; static at_bitmap vp_image; static at_color vp_bg; static const at_color *vp_bgp;
static int vp_inits, vp_p1, vp_p2, vp_frees; static long vp_want; static bool vp_give, vp_have;
QuantizeObj *vp_init(int n) { vp_inits++; VP_ASSERT(n == (vp_want > 256 ? 256 : vp_want), "P15 the requested number of colors is used, up to 256"); return &vp_q; }
void vp_pass1(QuantizeObj *q, at_bitmap *b, const at_color *c) { vp_p1++; VP_ASSERT(q == &vp_q && vp_inits == 1 && b == &vp_image && vp_p2 == 0 && c == (vp_give ? vp_bgp : NULL), "P15 the palette is made from the image before it is used"); }
void vp_pass2(QuantizeObj *q, at_bitmap *b, const at_color *c) { vp_p2++; VP_ASSERT(q == (vp_have ? &vp_mine : &vp_q) && vp_p1 == !vp_have && b == &vp_image && c == vp_bgp && !vp_frees, "P15 the image is mapped to the palette with the caller's background"); }
void vp_qfree(QuantizeObj *q) { vp_frees++; VP_ASSERT(q == &vp_q && vp_p2 == 1, "P15 only an own palette is freed, after use"); }
static int vp_nfatal; static void vp_m(const char *m, at_msg_type t, void *d) { vp_nfatal += t == AT_MSG_FATAL; }
void h_driver(void)
{
  QuantizeObj *q; at_exception_type e = at_exception_new(vp_m, NULL);
  vp_want = nd_u32(); vp_give = nd_bool(); vp_have = vp_give && nd_bool(); vp_bgp = nd_bool() ? &vp_bg : NULL;
  vp_image.np = nd_u32(); vp_image.width = nd_u16(); vp_image.height = nd_u16();
  VP_ASSUME(vp_want >= 1);
  q = vp_have ? &vp_mine : NULL;
  quantize(&vp_image, vp_want, vp_bgp, vp_give ? &q : NULL, &e);
  if (vp_image.np != 1 && vp_image.np != 3) {
    VP_ASSERT(vp_nfatal == 1 && !vp_inits && !vp_p1 && !vp_p2 && !vp_frees && q == (vp_have ? &vp_mine : NULL), "P15 an image of the wrong kind is refused with one error");
    VP_REACH("refused");
    return;
  }
  VP_ASSERT(vp_nfatal == 0 && vp_inits == !vp_have && vp_p1 == !vp_have && vp_p2 == 1, "P15 each pass runs once");
  VP_ASSERT(vp_frees == !vp_give && (!vp_give || q == (vp_have ? &vp_mine : &vp_q)), "P15 the palette goes to the caller or is freed");
  VP_REACH("done");
}
void h_biggest(void)
{
  box l[6]; int n = nd_u8() % 7, i; boxptr w;
  for (i = 0; i < 6; i++) l[i].volume = nd_int();
  w = find_biggest_volume(l, n);
  for (i = 0; i < n; i++) VP_ASSERT(w ? w->volume >= l[i].volume : l[i].volume <= 0, "P15 the largest box is split next");
  VP_ASSERT(!w || w >= l && w < l + n && w->volume > 0, "P15 a box is only split when it can be");
  VP_REACH("biggest");
}
#endif
