/* P26 executed: CGM and DR2D files of generated pictures against the elements the property calls for. */
#include "autotrace.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
static const char *vp_ver = "V";
const char *at_version(bool l) { return vp_ver; }
#ifdef VP_CGM
#include "output-cgm.c"
#else
#include "output-dr2d.c"
#endif
#include "vp_shape.h"
static unsigned char *o; static size_t on, ocap;
static void e8(unsigned v) { if (on == ocap) o = vp_real_realloc(o, ocap = 2 * ocap + 4096); o[on++] = v; }
static void e16(unsigned v) { e8(v >> 8 & 255); e8(v & 255); }
static void e32(unsigned v) { e16(v >> 16); e16(v & 65535); }
static at_color used(spline_list_array_type a, unsigned i) { return a.data[i].clockwise && a.background_color ? *a.background_color : a.data[i].color; }
static void same(const char *m)
{
  size_t p;
  for (p = 0; p < on && p < vp_gotlen && o[p] == (unsigned char)vp_got[p]; p++) ;
  if (p != on || p != vp_gotlen) { fprintf(stderr, "VP: FAILED: %s: byte %zu of %zu (expected %zu) case: %s\n", m, p, vp_gotlen, on, vp_case_text); fflush(stderr); _exit(1); }
}
#ifdef VP_CGM
static void elem(unsigned cls, unsigned id, unsigned len) { if (len < 31) e16(cls << 12 | id << 5 | len); else { e16(cls << 12 | id << 5 | 31); e16(len); } }
static void text(unsigned cls, unsigned id, const char *s)
{
  unsigned n = strlen(s), i, len = n < 255 ? n + 1 : n + 3;
  elem(cls, id, len);
  if (n < 255) e8(n); else { e8(255); e16(n); }
  for (i = 0; i < n; i++) e8((unsigned char)s[i]);
  if (len % 2) e8(0);
}
static void pt(at_real_coord p) { e16((unsigned)(int)p.x); e16((unsigned)(int)((float)vp_ury - p.y)); }
static void expect(spline_list_array_type a, const char *name)
{
  unsigned i, k; char d[400];
  on = 0;
  text(0, 1, name); elem(1, 1, 2); e16(2); snprintf(d, sizeof d, "created by %s", vp_ver); text(1, 2, d);
  elem(1, 11, 6); e16(1); e16(0xFFFF); e16(1); text(0, 3, "pic1"); elem(2, 2, 2); e16(1);
  elem(2, 6, 8); e16(vp_llx); e16(vp_urx); e16(vp_ury); e16(vp_lly); elem(0, 4, 0);
  for (i = 0; i < a.length; i++) {
    at_color c = used(a, i);
    elem(5, a.centerline ? 4 : 23, 3); e8(c.r); e8(c.g); e8(c.b); e8(0);
    elem(5, a.centerline ? 30 : 22, 2); e16(1); elem(0, a.centerline ? 15 : 8, 0);
    for (k = 0; k < a.data[i].length; k++) {
      spline_type s = a.data[i].data[k];
      if (s.degree == LINEARTYPE) { elem(4, 1, 8); pt(s.v[0]); pt(s.v[3]); }
      else { elem(4, 26, 18); e16(2); pt(s.v[0]); pt(s.v[1]); pt(s.v[2]); pt(s.v[3]); }
    }
    elem(0, a.centerline ? 16 : 9, 0);
  }
  elem(0, 5, 0); elem(0, 2, 0);
}
static int words(void) /* read back: every element is as long as it says */
{
  size_t p = 0; const unsigned char *b = (const unsigned char *)vp_got; unsigned w = 0;
  while (p + 2 <= vp_gotlen) {
    unsigned len; w = b[p] << 8 | b[p + 1]; p += 2; len = w & 31;
    if (len == 31) { if (p + 2 > vp_gotlen) return 0; len = b[p] << 8 | b[p + 1]; p += 2; }
    p += len + len % 2;
  }
  return p == vp_gotlen && w == 0x40;
}
static void one(spline_list_array_type a, const char *name)
{
  FILE *f; int rc; spline_list_array_type c = vp_shape_copy(a); long before = vp_blocks;
  vp_got = NULL; vp_gotlen = 0; f = open_memstream(&vp_got, &vp_gotlen);
  rc = output_cgm_writer(f, (char *)name, vp_llx, vp_lly, vp_urx, vp_ury, &vp_oopts, a, NULL, NULL, NULL); fclose(f);
  VP_ASSERT(rc == 0, "the writer reports success"); VP_ASSERT(vp_shape_same(a, c), "the writer leaves the picture alone"); VP_ASSERT(vp_blocks == before, "the writer frees what it allocates"); vp_shape_free(c);
  VP_ASSERT(words(), "P26 every element of a CGM file is as long as it says, the last one ends the file");
  expect(a, name); same("P26 the CGM file holds the elements of the picture");
}
#else
static float fac;
static void ef(float v) { long t = (long)v; union { float f; unsigned u; } r; r.f = (float)(t / 1024.0); e32(r.u == 0x80000000u ? 0 : r.u); }
static void chunk(const char *id, unsigned n) { e8(id[0]); e8(id[1]); e8(id[2]); e8(id[3]); e32(n); }
static void pt(at_real_coord p) { ef(p.x * fac); ef(((float)(vp_ury - vp_lly) - p.y) * fac); }
static void expect(spline_list_array_type a)
{
  unsigned i, k, ncol = 0; at_color col[512]; size_t at; int w = vp_urx - vp_llx, h = vp_ury - vp_lly; const char *pp; unsigned char sz[4];
  fac = w < h ? 11.6930f / (float)w * 1024 : 8.2681f / (float)h * 1024;
  on = 0; chunk("FORM", 0); e8('D'); e8('R'); e8('2'); e8('D');
  chunk("DRHD", 16); ef(vp_llx * fac); ef(vp_lly * fac); ef(vp_urx * fac); ef(vp_ury * fac);
  pp = w < h ? "Units=Inch\0Portrait=True\0PageType=A4\0GridSize=1.000000" : "Units=Inch\0Portrait=False\0PageType=A4\0GridSize=1.000000";
  i = w < h ? 55 : 56; chunk("PPRF", i); for (k = 0; k < i; k++) e8(pp[k]); if (i % 2) e8(0);
  chunk("LAYR", 20); e16(0); for (k = 0; k < 16; k++) e8(k < 13 ? "Default layer"[k] : 0); e8(3); e8(0);
  chunk("DASH", 4); e16(1); e16(0);
  for (i = 0; i < a.length; i++) { at_color c = used(a, i); for (k = 0; k < ncol && !(col[k].r == c.r && col[k].g == c.g && col[k].b == c.b); k++) ; if (k == ncol) col[ncol++] = c; }
  chunk("CMAP", 3 * ncol); for (k = 0; k < ncol; k++) { e8(col[k].r); e8(col[k].g); e8(col[k].b); } if (ncol % 2) e8(0);
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; at_color c = used(a, i); int stroke = a.centerline || l.open; unsigned np = 0;
    float x1 = l.data[0].v[0].x, y1 = (float)h - l.data[0].v[0].y, x2 = x1, y2 = y1;
    for (k = 0; k < l.length; k++) { float x = l.data[k].v[3].x, y = (float)h - l.data[k].v[3].y; if (x < x1) x1 = x; if (x > x2) x2 = x; if (y < y1) y1 = y; if (y > y2) y2 = y; np += l.data[k].degree == LINEARTYPE ? 1 : 5; }
    np += l.data[0].degree == LINEARTYPE;
    chunk("BBOX", 16); ef(x1 * fac); ef(y1 * fac); ef(x2 * fac); ef(y2 * fac);
    for (k = 0; !(col[k].r == c.r && col[k].g == c.g && col[k].b == c.b); k++) ;
    chunk("ATTR", 14); e8(stroke ? 0 : 1); e8(3); e8(1); e8(0); e16(k); e16(k); e16(0); at = on; e32(0);
    if (at + 4 <= vp_gotlen) for (k = 0; k < 4; k++) o[at + k] = vp_got[at + k]; /* the line thickness is not claimed */
    chunk(stroke ? "OPLY" : "CPLY", 2 + 8 * np); e16(np);
    if (l.data[0].degree == LINEARTYPE) pt(l.data[0].v[0]);
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      if (s.degree == LINEARTYPE) pt(s.v[3]);
      else { e32(0xFFFFFFFF); e32(1); pt(s.v[0]); pt(s.v[1]); pt(s.v[2]); pt(s.v[3]); }
    }
  }
  sz[0] = (on - 8) >> 24; sz[1] = (on - 8) >> 16; sz[2] = (on - 8) >> 8; sz[3] = on - 8; memcpy(o + 4, sz, 4);
}
#endif
void h_run(void)
{
  int n; unsigned k;
  vp_seed(VP_S); vp_oopts.dpi = 72; vp_mixed_open = 1;
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a; at_color bg;
    vp_maxlists = n % 50 == 49 ? 300 : 9; vp_maxspl = n % 50 == 24 ? 300 : 9; vp_maxcol = n % 50 == 49 ? 60 : 5;
    bg.r = vp_rand(256); bg.g = vp_rand(256); bg.b = vp_rand(256);
#ifdef VP_CGM
    static const int lens[] = { 0, 1, 2, 6, 28, 29, 30, 31, 32, 100, 253, 254, 255, 256, 300, 1000, 4095 };
    static char name[5000]; int m = lens[n % 17];
    for (k = 0; k < (unsigned)m; k++) name[k] = "abc/._\351"[vp_rand(7)];
    name[m] = 0; vp_ver = n % 3 ? "AutoTrace version 0.40.0" : n % 2 ? "" : "V";
    vp_cmin = 0; a = vp_shape(); a.height = 700 + vp_rand(1000);
    if (a.background_color) a.background_color = &bg;
    vp_box(a); vp_describe(a); vp_cases++;
    one(a, name);
#else
    a = vp_shape(); if (a.background_color) a.background_color = &bg;
    vp_box(a); vp_describe(a); vp_cases++;
    vp_write(output_dr2d_writer, a);
    expect(a); same("P26 the DR2D file holds the chunks of the picture");
#endif
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "P26 everything is freed");
  }
  VP_DONE();
}
