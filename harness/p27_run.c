/* P27 executed: HPGL, FIG, MIF and UGS files of generated pictures against the text the property calls for. */
#include "autotrace.h"
#include "vp_run.h"
#include <math.h>
#include <time.h>
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
const char *at_version(bool l) { return "V"; }
#if defined VP_PLT
#include "output-plt.c"
#elif defined VP_MIF
#include "output-mif.c"
#elif defined VP_FIG
#include "output-fig.c"
#else
#include "output-ugs.c"
#endif
#include "vp_shape.h"
/* the text written so far read; numbers may be called for with a tolerance */
static size_t rp;
static void bad(const char *m, const char *w)
{
  fprintf(stderr, "VP: FAILED: %s (%s) at byte %zu: \"%.80s\" case: %s\n", m, w, rp, vp_got + (rp < vp_gotlen ? rp : vp_gotlen), vp_case_text); fflush(stderr); _exit(1);
}
static void skip(void) { while (rp < vp_gotlen && vp_blank((unsigned char)vp_got[rp])) rp++; }
static void word(const char *f, ...)
{
  char b[1000]; va_list ap; size_t i;
  va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  skip();
  for (i = 0; vp_blank((unsigned char)b[i]); i++) ;
  for (; b[i]; i++) {
    if (vp_blank((unsigned char)b[i])) { if (rp >= vp_gotlen || !vp_blank((unsigned char)vp_got[rp])) bad("P27 the text called for is written", b); skip(); continue; }
    if (rp >= vp_gotlen || vp_got[rp] != b[i]) bad("P27 the text called for is written", b);
    rp++;
  }
}
static double number(void)
{
  char *e; double d; skip(); errno = 0; d = strtod(vp_got + rp, &e);
  if (e == vp_got + rp || rp >= vp_gotlen) bad("P27 a number is written", "number");
  rp = e - vp_got; return d;
}
static void num(double v, double tol) { size_t at = rp; double d = number(); char b[80]; if (!(fabs(d - v) <= tol)) { rp = at; snprintf(b, sizeof b, "%.9g", v); bad("P27 the number called for is written", b); } }
static int peek(const char *s) { skip(); return rp + strlen(s) <= vp_gotlen && !strncmp(vp_got + rp, s, strlen(s)); }
static double bez(double t, double a, double b, double c, double d) { double u = 1 - t; return u * u * u * a + 3 * t * u * u * b + 3 * t * t * u * c + t * t * t * d; }
static at_color used(spline_list_array_type a, unsigned i) { return a.data[i].clockwise && a.background_color ? *a.background_color : a.data[i].color; }
static int coleq(at_color p, at_color q) { return p.r == q.r && p.g == q.g && p.b == q.b; }
#if defined VP_PLT
static int pen(at_color c)
{
  static const int p[8][3] = { { 0, 0, 0 }, { 255, 0, 0 }, { 0, 255, 0 }, { 255, 255, 0 }, { 0, 0, 255 }, { 0xB8, 0, 0x80 }, { 0, 255, 255 }, { 255, 0x84, 0 } };
  int i, best = 0; long d, bd = 1000000;
  for (i = 0; i < 8; i++) { d = (c.r - p[i][0]) * (c.r - p[i][0]) + (c.g - p[i][1]) * (c.g - p[i][1]) + (c.b - p[i][2]) * (c.b - p[i][2]); if (d < bd) bd = d, best = i; }
  return best + 1;
}
static void check(spline_list_array_type a)
{
  unsigned i, k, j; float sc = 1016.0f / 120; at_real_coord p = { 0, 0, 0 };
  word("IN;IP %d %d %d %d;SC %d %d %d %d;", (int)(sc * vp_llx), (int)(sc * vp_lly), (int)(sc * vp_urx), (int)(sc * vp_ury), vp_llx, vp_urx, vp_lly, vp_ury);
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i];
    if (i == 0 || !coleq(l.color, a.data[i - 1].color)) word("SP%d;", pen(l.color));
    p = l.data[0].v[0]; word("PU%d %d;", (int)p.x, (int)p.y);
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      if (s.degree != LINEARTYPE) for (j = 1; j < 7; j++) { word("PD"); num(bez(j / 7.0, s.v[0].x, s.v[1].x, s.v[2].x, s.v[3].x), 1.01); num(bez(j / 7.0, s.v[0].y, s.v[1].y, s.v[2].y, s.v[3].y), 1.01); word(";"); }
      p = s.v[3]; word("PD%d %d;", (int)p.x, (int)p.y);
    }
  }
  word("PU%d %d;", (int)p.x, (int)p.y);
}
#define WRITER output_plt_writer
#elif defined VP_MIF
static const char *tag(at_color c)
{
  static char b[32]; static const struct { int r, g, b; const char *n; } t[] = { { 0, 0, 0, "Black" }, { 255, 0, 0, "Red" }, { 0, 255, 0, "Green" }, { 0, 0, 255, "Blue" }, { 255, 255, 0, "Yellow" }, { 255, 0, 255, "Magenta" }, { 0, 255, 255, "Cyan" }, { 255, 255, 255, "White" } };
  int i; for (i = 0; i < 8; i++) if (c.r == t[i].r && c.g == t[i].g && c.b == t[i].b) return t[i].n;
  snprintf(b, sizeof b, "R%03dG%03dB%03d", c.r, c.g, c.b); return b;
}
static void point(double x, double y) { word("<Point"); num(x * 72 / vp_oopts.dpi, 0.02); num((vp_ury - y + 1) * 72 / vp_oopts.dpi, 0.02); word(">"); }
static void check(spline_list_array_type a)
{
  unsigned i, k, j;
  word("<MIFFile 4.00> #V <Units Upt> <ColorCatalog");
  for (i = 0; i < a.length; i++) {
    at_color c = used(a, i); int C = 255 - c.r, M = 255 - c.g, Y = 255 - c.b, K = C < M ? C : M; if (Y < K) K = Y;
    for (k = 0; k < i && !coleq(used(a, k), c); k++) ;
    if (k == i) word("<Color <ColorTag %s><ColorCyan %d><ColorMagenta %d><ColorYellow %d><ColorBlack %d>>", tag(c), (C - K) * 100 / 255, (M - K) * 100 / 255, (Y - K) * 100 / 255, K * 100 / 255);
  }
  word("> <Frame <Pen 15> <Fill 15> <PenWidth 0.2 pt> <Separation 0> <BRect 0.0 pt 0.0 pt"); num((vp_urx - vp_llx) * 72.0 / vp_oopts.dpi, 0.11); word("pt"); num((vp_ury - vp_lly) * 72.0 / vp_oopts.dpi, 0.11); word("pt>");
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i];
    word("%s", a.centerline || l.open ? "<PolyLine <Fill 15><Pen 0>" : "<Polygon <Fill 0><Pen 15>"); word("<ObColor `%s'>", tag(used(a, i)));
    point(l.data[0].v[0].x, l.data[0].v[0].y);
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k]; int last = 0;
      if (s.degree != LINEARTYPE) {
        float t, dt = 1.0f / 7;
        for (t = dt; fabs(t - 1.0f) > dt; t += dt) point(bez(t, s.v[0].x, s.v[1].x, s.v[2].x, s.v[3].x), bez(t, s.v[0].y, s.v[1].y, s.v[2].y, s.v[3].y));
      }
      point(s.v[3].x, s.v[3].y);
    }
    word("<Smoothed No> >");
  }
  word(">");
}
#define WRITER output_mif_writer
#elif defined VP_FIG
static at_color fc[600]; static int fset[600];
static int FX(double x) { return (int)(x * 15.0 + 300.0); }
static int FY(float y) { return (int)((vp_ury - y) * 15.0 + 300.0); }
typedef struct { float x1, y1, x2, y2; int depth; } box;
static void grow(box *b, at_real_coord p, int first) { if (first || p.x < b->x1) b->x1 = p.x; if (first || p.x > b->x2) b->x2 = p.x; if (first || p.y < b->y1) b->y1 = p.y; if (first || p.y > b->y2) b->y2 = p.y; }
static void check(spline_list_array_type a)
{
  static const unsigned char base[8][3] = { { 0, 0, 0 }, { 0, 0, 255 }, { 0, 255, 0 }, { 0, 255, 255 }, { 255, 0, 0 }, { 255, 0, 255 }, { 255, 255, 0 }, { 255, 255, 255 } };
  unsigned i, k, j; int n, depth = 999; static box bx[1000];
  memset(fset, 0, sizeof fset);
  for (i = 0; i < 8; i++) { fc[i].r = base[i][0]; fc[i].g = base[i][1]; fc[i].b = base[i][2]; fset[i] = 1; }
  word("#FIG 3.2 Landscape Center Inches Letter 100.00 Single -2 1200 2");
  for (n = 32; peek("0 "); n++) {
    unsigned r, g, b; word("0 %d #", n); if (rp + 6 > vp_gotlen || sscanf(vp_got + rp, "%2x%2x%2x", &r, &g, &b) != 3) bad("P27 a color is defined", "color"); rp += 6;
    VP_ASSERT(n < 544, "P27 no more colors than FIG allows");
    fc[n].r = r; fc[n].g = g; fc[n].b = b; fset[n] = 1;
    for (i = 32; i < (unsigned)n; i++) VP_ASSERT(!coleq(fc[i], fc[n]), "P27 a color is defined once");
    for (i = 0; i < a.length && !coleq(used(a, i), fc[n]); i++) ;
    VP_ASSERT(i < a.length, "P27 only colors of the picture are defined");
  }
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; int np = 0, curve = 0, cap = 5 * l.length + 2, closed; int *x = vp_real_realloc(NULL, cap * sizeof *x), *y = vp_real_realloc(NULL, cap * sizeof *y), *w = vp_real_realloc(NULL, cap * sizeof *w), *t = vp_real_realloc(NULL, cap * sizeof *t);
    int c; at_color want = l.clockwise ? fc[7] : l.color;
#define PT(X, Y, W, T) (x[np] = (X), y[np] = (Y), w[np] = (W), t[np] = (T), np++)
    PT(FX(l.data[0].v[0].x), FY(l.data[0].v[0].y), 0, 0);
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      grow(&bx[i], s.v[0], k == 0);
      if (s.degree != LINEARTYPE) { curve = 1; for (j = 1; j < 5; j++) PT(FX(bez(j / 5.0, s.v[0].x, s.v[1].x, s.v[2].x, s.v[3].x)), FY(bez(j / 5.0, s.v[0].y, s.v[1].y, s.v[2].y, s.v[3].y)), -1, 1); for (j = 1; j < 4; j++) grow(&bx[i], s.v[j], 0); }
      PT(FX(s.v[3].x), FY(s.v[3].y), 0, 0);
    }
    closed = x[0] == x[np - 1] && y[0] == y[np - 1];
    if (curve) {
      word("3 %d 0 %d", a.centerline ? 4 : 5, a.centerline ? 1 : 0); c = number(); num(c, 0); n = number(); word(" 0 %d 0.00 0 0 0 %d ", a.centerline ? -1 : 20, np);
      for (j = 0; j < (unsigned)np; j++) { num(x[j], t[j] ? 2 : 0); num(y[j], t[j] ? 2 : 0); }
      for (j = 0; j < (unsigned)np; j++) num(w[j], 0);
    } else if (np == 2 || (np == 3 && closed)) {
      int pt = np == 2 && closed;
      word("2 1 0 1"); c = number(); num(c, 0); n = number(); word(" 0 -1 0.000 0 0 -1 0 0 %d %d %d", pt ? 1 : 2, x[0], y[0]); if (!pt) word(" %d %d", x[1], y[1]);
    } else {
      int sub = 3, m = np;
      if (!closed) { if (a.centerline) sub = 1; else { x[np] = x[0]; y[np] = y[0]; m = np + 1; } }
      word("2 %d 0 %d", sub, a.centerline ? 1 : 0); c = number(); num(c, 0); n = number(); word(" 0 %d 0.00 0 0 0 0 0 %d ", a.centerline ? -1 : 20, m);
      for (j = 0; j < (unsigned)m; j++) { num(x[j], 0); num(y[j], 0); }
    }
    VP_ASSERT(c >= 0 && c < 544 && fset[c] && coleq(fc[c], want), "P27 an object has its color, holes are white");
    VP_ASSERT(n >= 0 && n <= depth, "P27 depths are in range and objects are not drawn below earlier ones");
    depth = n; bx[i].depth = n;
    for (j = 0; j < i; j++) if (!(bx[i].y2 <= bx[j].y1 || bx[i].y1 >= bx[j].y2 || bx[i].x2 <= bx[j].x1 || bx[i].x1 >= bx[j].x2)) VP_ASSERT(n < bx[j].depth || n == 0, "P27 an object over an earlier one is drawn above it");
    vp_real_free(x); vp_real_free(y); vp_real_free(w); vp_real_free(t);
  }
}
#define WRITER output_fig_writer
#else
static long bx1, by1, bx2, by2;
static void on(const char *w, long x, long y) { word("%s %ld %ld ", w, x, y); }
static void span(long x, long y) { if (x < bx1) bx1 = x; if (x > bx2) bx2 = x; if (y < by1) by1 = y; if (y > by2) by2 = y; }
static double off_line(double px, double py, double ax, double ay, double bx, double by) { double dx = bx - ax, dy = by - ay, l = sqrt(dx * dx + dy * dy); return l < 0.01 ? 0 : fabs((px - ax) * dy - (py - ay) * dx) / l; }
/* where the tangent at the point the curve is divided at meets a line; 0: nearly parallel, nothing said */
static double part(double a, double b, double c, double d) { double v = -a + 2 * b - c, w = -a + 3 * b - 3 * c + d; if (w < 0) v = -v, w = -w; return v > 0.0011 && v < w * 0.9999 ? v / w : v > 0.0009 && v < w * 1.0001 ? -1 : 0; }
static int meet(at_real_coord *p, int from, int to, double *x, double *y)
{
  double t = part(p[0].x, p[1].x, p[2].x, p[3].x), u, ex, ey, tx, ty, dx = p[to].x - p[from].x, dy = p[to].y - p[from].y, det, s;
  if (t == 0) t = part(p[0].y, p[1].y, p[2].y, p[3].y);
  if (t < 0) return 0;
  if (t == 0) t = 0.5;
  u = 1 - t; ex = bez(t, p[0].x, p[1].x, p[2].x, p[3].x); ey = bez(t, p[0].y, p[1].y, p[2].y, p[3].y);
  tx = u * u * (p[1].x - p[0].x) + 2 * u * t * (p[2].x - p[1].x) + t * t * (p[3].x - p[2].x); ty = u * u * (p[1].y - p[0].y) + 2 * u * t * (p[2].y - p[1].y) + t * t * (p[3].y - p[2].y);
  det = dx * ty - dy * tx; if (det * det < 1e-4 * (dx * dx + dy * dy) * (tx * tx + ty * ty) || hypot(dx, dy) < 1 || hypot(tx, ty) < 1) return 0;
  s = ((ex - p[from].x) * ty - (ey - p[from].y) * tx) / det; if (s < 0) s = 0;
  *x = p[from].x + s * dx; *y = p[from].y + s * dy;
  return 1;
}
static void check(spline_list_array_type a)
{
  unsigned i, k; int j;
  word("symbol %#lx design-size %ld advance-width %ld contour ", ugs_charcode, ugs_design_pixels, ugs_advance_width);
  bx1 = ugs_left_bearing; by1 = ugs_descend; bx2 = ugs_advance_width - ugs_max_col - 1; by2 = ugs_max_row;
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; at_real_coord p[4]; long x, y;
    for (k = 0; k < l.length; k++) {
      for (j = 0; j < 4; j++) { p[j].x = l.data[k].v[j].x + (float)ugs_left_bearing; p[j].y = l.data[k].v[j].y + (float)ugs_descend; }
      if (k == 0) { word("path"); x = lround(p[0].x); y = lround(p[0].y); on(" dot-on", x, y); span(x, y); }
      long ex = lround(p[3].x), ey = lround(p[3].y);
      if (l.data[k].degree == LINEARTYPE) { if (ex != x || ey != y) on("dot-on", ex, ey); }
      else {
        long qx, qy; double best = 1e9, t, mx, my;
        if (peek("dot-off")) { word("dot-off "); qx = number(); qy = number(); span(qx, qy); if (meet(p, 0, 1, &mx, &my)) VP_ASSERT(fabs(qx - mx) < 0.6 + 1e-4 * fabs(mx) && fabs(qy - my) < 0.6 + 1e-4 * fabs(my), "P27 the first control point is where the tangents meet"); VP_ASSERT(off_line(qx, qy, p[0].x, p[0].y, p[1].x, p[1].y) < 1.01, "P27 the first control point lies in the direction of the start"); }
        word("dot-on "); qx = number(); qy = number(); span(qx, qy);
        for (t = 0; t <= 1; t += 1 / 4096.0) { double dx = bez(t, p[0].x, p[1].x, p[2].x, p[3].x) - qx, dy = bez(t, p[0].y, p[1].y, p[2].y, p[3].y) - qy; if (dx * dx + dy * dy < best) best = dx * dx + dy * dy; }
        VP_ASSERT(best < 1.5, "P27 a curve is divided at a point of it");
        if (peek("dot-off")) { word("dot-off "); qx = number(); qy = number(); span(qx, qy); if (meet(p, 3, 2, &mx, &my)) VP_ASSERT(fabs(qx - mx) < 0.6 + 1e-4 * fabs(mx) && fabs(qy - my) < 0.6 + 1e-4 * fabs(my), "P27 the second control point is where the tangents meet"); VP_ASSERT(off_line(qx, qy, p[3].x, p[3].y, p[2].x, p[2].y) < 1.01, "P27 the second control point lies in the direction of the end"); }
        on("dot-on", ex, ey);
      }
      span(ex, ey); x = ex; y = ey;
    }
    word("end path ");
  }
  word("end contour left-bearing %ld right-bearing %ld ascend %ld descend %ld end symbol", bx1, ugs_advance_width - bx2 - 1, by2 + 1, by1);
}
#define WRITER output_ugs_writer
#endif
void h_run(void)
{
  int n; unsigned k;
  vp_seed(VP_S);
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a; at_color bg;
    vp_maxlists = n % 50 == 49 ? 300 : 9; vp_maxspl = n % 50 == 24 ? 300 : 9; vp_maxcol = n % 50 == 49 ? 60 : 5;
    bg.r = vp_rand(256); bg.g = vp_rand(256); bg.b = vp_rand(256); vp_mixed_open = n % 3 == 0;
    vp_oopts.dpi = 72 + n % 2 * 228;
#ifdef VP_PLT
    vp_cmin = 0;
#endif
    a = vp_shape(); if (a.background_color) a.background_color = &bg;
#ifdef VP_FIG
    if (n % 4 == 1) for (k = 0; k < a.length; k++) if (a.data[k].length == 2 && vp_rand(2)) { unsigned j; for (j = 0; j < 2; j++) a.data[k].data[j].degree = LINEARTYPE; }
#endif
#ifdef VP_UGS
    ugs_left_bearing = vp_rand(50) - 25; ugs_descend = (long)vp_rand(50) - 25; ugs_advance_width = vp_rand(900); ugs_max_col = vp_rand(800); ugs_max_row = vp_rand(800); ugs_charcode = vp_rand(256); ugs_design_pixels = vp_rand(2000);
    ugs_left_bearing = (long)(int)ugs_left_bearing;
#endif
    /* many colors */
    if (n % 97 == 96) {
      unsigned m = 200 + vp_rand(700), c0 = vp_rand(1000); vp_shape_free(a); a.length = m; a.data = malloc(m * sizeof *a.data);
      for (k = 0; k < m; k++) { spline_list_type l; memset(&l, 0, sizeof l); l.length = 1; l.data = malloc(sizeof *l.data); memset(l.data, 0, sizeof *l.data); l.data[0].v[0].x = l.data[0].v[1].x = k; l.data[0].v[2].x = l.data[0].v[3].x = k + 1; l.data[0].degree = LINEARTYPE; l.color.r = (c0 + k) >> 4; l.color.g = (c0 + k) * 7; l.color.b = k * 5; l.open = 1; a.data[k] = l; }
      a.background_color = NULL;
    }
    vp_box(a); vp_describe(a); vp_cases++;
    vp_write(WRITER, a);
#ifdef VP_FIG
    if (n % 97 == 96 && a.length > 500) goto next; /* more colors than FIG allows: only memory and termination are claimed */
#endif
    rp = 0; check(a); skip();
    if (rp != vp_gotlen) bad("P27 nothing else is written", "end");
next:
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "P27 everything is freed");
  }
#ifdef VP_PLT
  { /* colors all over the cube */
    spline_list_array_type a; int v, m = 40 * 40 * 40; memset(&a, 0, sizeof a); a.length = m; a.data = malloc(m * sizeof *a.data);
    for (v = 0; v < m; v++) { spline_list_type l; memset(&l, 0, sizeof l); l.length = 1; l.data = malloc(sizeof *l.data); memset(l.data, 0, sizeof *l.data); l.data[0].degree = LINEARTYPE; l.color.r = v % 40 * 255 / 39; l.color.g = v / 40 % 40 * 255 / 39; l.color.b = v / 1600 * 255 / 39; if (v % 7 == 0) l.color.r = vp_rand(256); a.data[v] = l; }
    vp_box(a); vp_describe(a); vp_write(WRITER, a); rp = 0; check(a); vp_got_free(); vp_shape_free(a);
  }
#endif
  VP_DONE();
}
