/* P28 executed: DXF and ILDA files of generated pictures against what the property calls for. */
#include "autotrace.h"
#include "vp_run.h"
#include <math.h>
#include <time.h>
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
const char *at_version(bool l) { return "V"; }
#include "vp_tables.h"
#ifdef VP_DXF
#include "output-dxf.c"
#else
static int vp_quiet(const char *f, ...) { return 0; }
#define printf vp_quiet
#include "output-ild.c"
#undef printf
#endif
#include "vp_shape.h"
static size_t rp;
static void bad(const char *m, const char *w)
{
  fprintf(stderr, "VP: FAILED: %s (%s) at byte %zu: \"%.80s\" case: %s\n", m, w, rp, vp_got + (rp < vp_gotlen ? rp : vp_gotlen), vp_case_text); fflush(stderr); _exit(1);
}
static double bez(double t, double a, double b, double c, double d) { double u = 1 - t; return u * u * u * a + 3 * t * u * u * b + 3 * t * t * u * c + t * t * t * d; }
static int coleq(at_color p, at_color q) { return p.r == q.r && p.g == q.g && p.b == q.b; }
static long cdist(int r, int g, int b, const short *t) { return (r - t[0]) * (r - t[0]) + (g - t[1]) * (g - t[1]) + (b - t[2]) * (b - t[2]); }
#ifdef VP_DXF
static at_color used(spline_list_array_type a, unsigned i) { return a.data[i].clockwise && a.background_color ? *a.background_color : a.data[i].color; }
static int acad(at_color c) { int i, best = 0; for (i = 1; i < 255; i++) if (cdist(c.r, c.g, c.b, vp_acad[i]) < cdist(c.r, c.g, c.b, vp_acad[best])) best = i; return best + 1; }
static void skip(void) { while (rp < vp_gotlen && vp_blank((unsigned char)vp_got[rp])) rp++; }
/* a line of the file by itself */
static void line(const char *f, ...)
{
  char b[200]; va_list ap; size_t n;
  va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  skip(); n = strlen(b);
  if (rp + n >= vp_gotlen || memcmp(vp_got + rp, b, n) || vp_got[rp + n] != '\n') bad("P28 the line called for is written", b);
  rp += n;
}
static int peek_line(const char *s) { size_t r = rp, n = strlen(s); while (r < vp_gotlen && vp_blank((unsigned char)vp_got[r])) r++; return r + n < vp_gotlen && !memcmp(vp_got + r, s, n) && vp_got[r + n] == '\n'; }
static void num(double v) { char *e, b[60]; double d; skip(); d = strtod(vp_got + rp, &e); if (e == vp_got + rp || *e != '\n' || !(fabs(d - v) <= 2.1e-4)) { snprintf(b, sizeof b, "%.9g", v); bad("P28 the number called for is written", b); } rp = e - vp_got; }
static void xy(double x, double y) { line("10"); num(x); line("20"); num(y); }
static void start_at(int layer, double x, double y) { line("0"); line("POLYLINE"); line("8"); line("C%d", layer); line("66"); line("1"); xy(x, y); }
static void vertex(int layer, double x, double y) { line("0"); line("VERTEX"); line("8"); line("C%d", layer); xy(x, y); }
static void end_at(void) { line("0"); line("SEQEND"); line("8"); skip(); while (rp < vp_gotlen && vp_got[rp] != '\n') rp++; }
static void check(spline_list_array_type a)
{
  unsigned i, k, j; char seen[256]; int c; at_real_coord p = { 0, 0, 0 }; const char *s; char h[2000], *t, *u;
  snprintf(h, sizeof h, "0\nSECTION\n2\nHEADER\n9\n$ACADVER\n1\nAC1009\n9\n$EXTMIN\n10\n%f\n20\n%f\n30\n0.000000\n9\n$EXTMAX\n10\n%f\n20\n%f\n30\n0.000000\n0\nENDSEC\n0\nSECTION\n2\nTABLES\n0\nTABLE\n2\nLAYER\n70\n2048\n0\nLAYER\n2\n0\n70\n0\n62\n7\n6\nCONTINUOUS\n", (double)vp_llx, (double)vp_lly, (double)vp_urx, (double)vp_ury);
  for (t = h; (u = strchr(t, '\n')); t = u + 1) { *u = 0; line("%s", t); }
  memset(seen, 0, sizeof seen); for (i = 0; i < a.length; i++) seen[acad(used(a, i))] = 1;
  for (c = 1; c < 256; c++) if (seen[c]) { line("0"); line("LAYER"); line("2"); line("C%d", c); line("70"); line("64"); line("62"); line("%d", c); line("6"); line("CONTINUOUS"); }
  line("0"); line("ENDTAB"); line("0"); line("ENDSEC"); line("0"); line("SECTION"); line("2"); line("ENTITIES");
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; int layer = acad(used(a, i)); at_real_coord q = l.data[0].v[0];
    /* a path goes on where the one before ended only in the same color */
    if (i == 0 || !coleq(used(a, i), used(a, i - 1)) || lround(q.x * 10000.0) != lround(p.x * 10000.0) || lround(q.y * 10000.0) != lround(p.y * 10000.0)) {
      if (i) end_at();
      start_at(layer, q.x, q.y); vertex(layer, q.x, q.y);
    }
    p = q;
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      if (s.degree != LINEARTYPE) {
        /* n straight pieces, about one for each unit of the control polygon */
        double len = 0; long n, m; for (j = 0; j < 3; j++) len += hypot(lround(s.v[j + 1].x * 10000.0) - lround(s.v[j].x * 10000.0), lround(s.v[j + 1].y * 10000.0) - lround(s.v[j].y * 10000.0));
        n = lround(len / 10000); if (n < 1) n = 1;
        for (m = 1; m < n; m++) vertex(layer, bez((double)m / n, s.v[0].x, s.v[1].x, s.v[2].x, s.v[3].x), bez((double)m / n, s.v[0].y, s.v[1].y, s.v[2].y, s.v[3].y));
      }
      vertex(layer, s.v[3].x, s.v[3].y); p = s.v[3];
    }
  }
  if (a.length) end_at();
  line("0"); line("ENDSEC"); line("0"); line("EOF"); skip();
  if (rp != vp_gotlen) bad("P28 nothing else is written", "end");
}
#define WRITER output_dxf12_writer
#else
typedef struct { int x, y, r, g, b, blank; } pt;
static pt *P; static size_t np, cp;
static int clipd(double v) { return (int)rint(v > 32767 ? 32767 : v < -32768 ? -32768 : v); }
static void put(double x, double y, int r, int g, int b, int blank) { if (np == cp) { cp = 2 * cp + 64; P = vp_real_realloc(P, cp * sizeof *P); } P[np].x = clipd(x); P[np].y = clipd(y); P[np].r = r; P[np].g = g; P[np].b = b; P[np].blank = blank; np++; }
static void move(double x, double y)
{
  int x0 = np ? P[np - 1].x : 0, y0 = np ? P[np - 1].y : 0, len = rint(hypot(x - x0, y - y0)), n = len < 1200 ? 1 : len / 1200, i;
  if (len) for (i = 0; i <= n; i++) put(x0 + (x - x0) * i / n, y0 + (y - y0) * i / n, 0, 0, 0, 1);
}
static unsigned u8(void) { if (rp >= vp_gotlen) bad("P28 the file is long enough", "byte"); return (unsigned char)vp_got[rp++]; }
static unsigned be(int n) { unsigned v = 0; while (n--) v = v << 8 | u8(); return v; }
static void text(const char *s, int n) { if (rp + n > vp_gotlen || memcmp(vp_got + rp, s, n)) bad("P28 the text called for is written", s); rp += n; }
static int like(pt *e, pt *g) { return abs(e->x - g->x) <= 1 && abs(e->y - g->y) <= 1 && e->r == g->r && e->g == g->g && e->b == g->b && e->blank == g->blank; }
static int same(pt *e, pt *g) { return e->x == g->x && e->y == g->y && e->r == g->r && e->g == g->g && e->b == g->b && e->blank == g->blank; }
static void check(spline_list_array_type a)
{
  unsigned i, k, j, n; int dim = vp_urx - vp_llx > vp_ury - vp_lly ? vp_urx - vp_llx : vp_ury - vp_lly; double s = 65535.0 / dim, ox = (vp_llx + vp_urx) / 2.0, oy = (vp_lly + vp_ury) / 2.0;
  np = 0;
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; at_color c = l.color; int black = !(c.r || c.g || c.b);
    for (k = 0; k < l.length; k++) {
      double x[4], y[4]; int len = 0, st;
      for (j = 0; j < 4; j++) x[j] = (l.data[k].v[j].x - ox) * s, y[j] = (l.data[k].v[j].y - oy) * s;
      move(rint(x[0]), rint(y[0]));
      if (l.data[k].degree == LINEARTYPE) len = rint(hypot(x[3] - x[0], y[3] - y[0])); else for (j = 0; j < 3; j++) len += rint(hypot(x[j + 1] - x[j], y[j + 1] - y[j]));
      st = len < 800 ? 1 : len / 800;
      for (j = 0; j <= (unsigned)st; j++) { double t = (double)j / st; if (l.data[k].degree == LINEARTYPE) put((1 - t) * x[0] + t * x[3], (1 - t) * y[0] + t * y[3], c.r, c.g, c.b, black); else put(bez(t, x[0], x[1], x[2], x[3]), bez(t, y[0], y[1], y[2], y[3]), c.r, c.g, c.b, black); }
    }
  }
  if (np) move(0, 0);
  if (!np) put(0, 0, 0, 0, 0, 1);
  if (np > 60000) return; /* more points than a frame holds: only memory and termination are claimed */
  rp = 0;
  text("ILDA\0\0\0\3", 8); n = be(4); if (be(4) * 3 + 4 != n) bad("P28 the color count agrees with the length", "count"); n = (n - 4) / 3;
  VP_ASSERT(n >= np, "P28 every point is written");
  pt *G = vp_real_realloc(NULL, (n + 1) * sizeof *G); int pal;
  for (i = 0; i < n; i++) { G[i].r = u8(); G[i].g = u8(); G[i].b = u8(); }
  text("ILDA\0\0\0\1", 8); text("Frame #0000     ", 16); if (be(2) != (n & 0xffff)) bad("P28 the frame has as many points as colors", "count"); if (be(2) != 0 || be(2) != 1 || be(2) != 0) bad("P28 one frame", "frame");
  for (i = 0; i < n; i++) {
    G[i].x = (short)be(2); G[i].y = (short)be(2); pal = u8(); G[i].blank = pal >> 6 & 1;
    if ((pal & ~0x40) != (i == n - 1 ? 0x80 : 0)) bad("P28 the last point, and it alone, is marked", "status");
    pal = u8(); for (j = 0; j < 256; j++) if (cdist(G[i].r, G[i].g, G[i].b, vp_ilda[j]) < cdist(G[i].r, G[i].g, G[i].b, vp_ilda[pal])) bad("P28 the palette color is the nearest one", "color");
  }
  text("ILDA\0\0\0\1", 8); text("                ", 16); if (be(2) || be(2) || be(2) != 1 || be(2)) bad("P28 the file ends with an empty frame", "end");
  if (rp != vp_gotlen) bad("P28 nothing else is written", "end");
  /* the points are the expected ones, points may be repeated */
  {
    static size_t S[2][100000]; size_t ns = 1, m, q; int cur = 0; S[0][0] = 0;
    for (i = 0; i < n; i++) {
      size_t *A = S[cur], *B = S[1 - cur], nb = 0; /* A: how many expected points have been met */
      for (q = 0; q < ns; q++) {
        if (A[q] && i && same(&G[i - 1], &G[i]) && (!nb || B[nb - 1] < A[q])) B[nb++] = A[q];
        if (A[q] < np && like(&P[A[q]], &G[i]) && (!nb || B[nb - 1] < A[q] + 1)) B[nb++] = A[q] + 1;
      }
      if (!nb) { char b[200]; m = A[ns - 1]; snprintf(b, sizeof b, "point %u is %d %d #%02x%02x%02x %d, expected %d %d #%02x%02x%02x %d", i, G[i].x, G[i].y, G[i].r, G[i].g, G[i].b, G[i].blank, m < np ? P[m].x : 0, m < np ? P[m].y : 0, m < np ? P[m].r : 0, m < np ? P[m].g : 0, m < np ? P[m].b : 0, m < np ? P[m].blank : 0); bad("P28 the points are those of the picture", b); }
      ns = nb; cur = 1 - cur;
    }
    if (S[cur][ns - 1] != np) bad("P28 the points are all those of the picture", "end");
  }
  vp_real_free(G);
}
#define WRITER output_ild_writer
#endif
void h_run(void)
{
  int n; unsigned k;
  vp_seed(VP_S);
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a; at_color bg;
#ifdef VP_DXF
    vp_maxlists = n % 50 == 49 ? 60 : 6; vp_maxspl = n % 50 == 24 ? 60 : 4; vp_maxcol = n % 50 == 49 ? 60 : 3;
#else
    vp_maxlists = n % 50 == 49 ? 60 : 6; vp_maxspl = n % 50 == 24 ? 60 : 5; vp_maxcol = n % 50 == 49 ? 60 : 3;
#endif
    bg.r = vp_rand(256); bg.g = vp_rand(256); bg.b = vp_rand(256); vp_mixed_open = n % 3 == 0;
    vp_cmin = n % 5 == 0 ? -50 : 0; vp_cmax = n % 5 == 0 ? 700 : n % 5 == 1 ? 2 : 90;
    a = vp_shape(); if (a.background_color) a.background_color = &bg;
    /* paths that go on where the one before ended */
    for (k = 1; k < a.length; k++) if (vp_rand(2) == 0) { spline_list_type p = a.data[k - 1], l = a.data[k]; l.data[0].v[0] = p.data[p.length - 1].v[3]; if (l.data[0].degree == LINEARTYPE) l.data[0].v[1] = l.data[0].v[0]; if (!l.open && l.length > 1) l.data[l.length - 1].v[3] = l.data[0].v[0]; }
    if (n % 7 == 3) for (k = 0; k < a.length; k++) if (vp_rand(2)) { a.data[k].color.r = a.data[k].color.g = a.data[k].color.b = 0; }
    vp_box(a); vp_describe(a); vp_cases++;
    vp_write(WRITER, a);
    rp = 0; check(a);
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "P28 everything is freed");
  }
#ifdef VP_ILD
  for (n = 0; n < VP_N / 40; n++) { /* colors all over the cube */
    spline_list_array_type a; unsigned m = 4000; memset(&a, 0, sizeof a); a.width = a.height = 100; a.length = m; a.data = malloc(m * sizeof *a.data);
    for (k = 0; k < m; k++) { spline_list_type l; memset(&l, 0, sizeof l); l.length = 1; l.data = malloc(sizeof *l.data); memset(l.data, 0, sizeof *l.data); l.data[0].degree = LINEARTYPE; l.data[0].v[3].x = l.data[0].v[2].x = k % 2 ? 0 : 1; l.data[0].v[0].x = l.data[0].v[1].x = k % 2;
      l.color.r = vp_rand(256); l.color.g = vp_rand(256); l.color.b = vp_rand(256); if (k % 2) { unsigned char *p = (unsigned char *)&l.color; int q = vp_rand(3); p[q] = vp_rand(3) ? vp_rand(40) : 255 - vp_rand(130); } l.open = 1; a.data[k] = l; }
    vp_box(a); vp_describe(a); vp_cases++; vp_write(WRITER, a); rp = 0; check(a); vp_got_free(); vp_shape_free(a);
  }
#endif
  VP_DONE();
}
