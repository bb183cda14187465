/* P25 executed: EMF files of generated pictures against the records the property calls for. */
#include "autotrace.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
static const char *vp_ver;
const char *at_version(bool l) { return vp_ver; }
#include "output-emf.c"
#include "vp_shape.h"
static unsigned char *o; static size_t on, ocap; static unsigned nrec;
static void e8(unsigned v) { if (on == ocap) o = vp_real_realloc(o, ocap = 2 * ocap + 4096); o[on++] = v; }
static void e16(unsigned v) { e8(v & 255); e8(v >> 8 & 255); }
static void e32(unsigned v) { e16(v & 65535); e16(v >> 16); }
static void rec(unsigned t, unsigned words) { nrec++; e32(t); e32(4 * words); }
static void put32(size_t at, unsigned v) { o[at] = v; o[at + 1] = v >> 8; o[at + 2] = v >> 16; o[at + 3] = v >> 24; }
static unsigned ix(float x) { return (unsigned)(long long)x; }
static unsigned iy(float y) { return (unsigned)(long long)((float)vp_ury - y); }
static unsigned colref(at_color c) { return c.r | c.g << 8 | c.b << 16; }
/* handles: colours are numbered in some order, pens odd, brushes even */
static int ncol; static unsigned cols[512], hnd[512];
static void emf(spline_list_array_type a, const char *name)
{
  unsigned i, k, j, n = strlen(vp_ver) + strlen(name) + 3, words = 25 + (n * 2 + 3) / 4; int last = -1;
  on = 0; nrec = 0;
  rec(1, words);
  e32(0); e32(0); e32(vp_urx); e32(vp_ury); e32(0); e32(0); e32((unsigned)vp_urx * 320 * 100 / 1280); e32((unsigned)vp_ury * 240 * 100 / 1024);
  e32(0x464D4520); e32(0x10000); e32(0); e32(0); e16(2 * ncol + 1); e16(0); e32(n); e32(100); e32(0); e32(1280); e32(1024); e32(320); e32(240); e32(0); e32(0); e32(0);
  for (i = 0; vp_ver[i]; i++) e16(vp_ver[i] & 127); e16(0); for (i = 0; name[i]; i++) e16(name[i] & 127); e32(0); if (n % 2) e16(0);
  rec(19, 3); e32(1);
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; int c;
    for (c = 0; cols[c] != colref(l.color); c++) ;
    if (i == 0 || colref(a.data[i - 1].color) != colref(l.color)) {
      if (a.centerline) { rec(38, 7); e32(2 * hnd[c] + 1); e32(0); e32(0); e32(0); e32(cols[c]); rec(37, 3); e32(2 * hnd[c] + 1); if (i) { rec(40, 3); e32(2 * hnd[last] + 1); } }
      else { rec(37, 3); e32(0x80000008); }
      rec(39, 6); e32(2 * hnd[c] + 2); e32(0); e32(cols[c]); e32(0); rec(37, 3); e32(2 * hnd[c] + 2); if (i) { rec(40, 3); e32(2 * hnd[last] + 2); }
      last = c;
    }
    rec(59, 2); rec(27, 4); e32(ix(l.data[0].v[0].x)); e32(iy(l.data[0].v[0].y));
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      if (s.degree == LINEARTYPE) { rec(54, 4); e32(ix(s.v[3].x)); e32(iy(s.v[3].y)); continue; }
      if (k == 0 || l.data[k - 1].degree == LINEARTYPE) {
        unsigned m = 0; while (k + m < l.length && l.data[k + m].degree != LINEARTYPE) m++;
        rec(88, 7 + 3 * m); e32(0); e32(0); e32(-1); e32(-1); e32(3 * m);
      }
      for (j = 1; j < 4; j++) { e16(ix(s.v[j].x) & 65535); e16(iy(s.v[j].y) & 65535); }
    }
    rec(60, 2); rec(a.centerline || l.open ? 64 : 62, 6); e32(0); e32(0); e32(-1); e32(-1);
  }
  if (a.length) { if (a.centerline) { rec(40, 3); e32(2 * hnd[last] + 1); } rec(40, 3); e32(2 * hnd[last] + 2); }
  rec(14, 5); e32(0); e32(16); e32(20);
  put32(48, on); put32(52, nrec);
}
static unsigned g32(size_t p) { const unsigned char *q = (const unsigned char *)vp_got + p; return q[0] | q[1] << 8 | q[2] << 16 | (unsigned)q[3] << 24; }
void h_run(void)
{
  int n, i, j; size_t p; unsigned k;
  static const char *vers[] = { "V", "AutoTrace version 0.32.0", "xy", "" };
  vp_seed(VP_S);
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a; int recs = 0, seen;
    vp_maxlists = n % 50 == 49 ? 300 : 9; vp_maxspl = n % 50 == 24 ? 300 : 9; vp_maxcol = n % 50 == 49 ? 60 : 5;
    a = vp_shape(); vp_ver = vers[n % 4];
    vp_box(a); vp_describe(a); vp_cases++;
    { int m = n % 3 ? 6 : (int)vp_rand(300); for (i = 0; i < m; i++) vp_name[i] = "abc/._ "[vp_rand(7)]; vp_name[m] = 0; }
    vp_write(output_emf_writer, a);
    VP_ASSERT(vp_gotlen >= 108 && g32(48) == vp_gotlen, "P25 the header holds the size of the file");
    for (p = 0; p < vp_gotlen; p += g32(p + 4)) { VP_ASSERT(vp_gotlen - p >= 8 && g32(p + 4) >= 8 && g32(p + 4) % 4 == 0 && g32(p + 4) <= vp_gotlen - p, "P25 every record is as long as it says, the last one ends the file"); recs++; }
    VP_ASSERT(g32(52) == (unsigned)recs, "P25 the header holds the number of records");
    /* the numbers the writer gave the colours */
    ncol = 0;
    for (k = 0; k < a.length; k++) { for (i = 0; i < ncol && cols[i] != colref(a.data[k].color); i++) ; if (i == ncol) { cols[ncol] = colref(a.data[k].color); hnd[ncol] = ~0u; ncol++; } }
    for (p = 0; p < vp_gotlen; p += g32(p + 4)) if (g32(p) == 39) for (i = 0; i < ncol; i++) if (cols[i] == g32(p + 16)) { unsigned h = (g32(p + 8) - 2) / 2; VP_ASSERT(h < (unsigned)ncol && (hnd[i] == ~0u || hnd[i] == h), "P25 a colour has one handle, within the number declared"); hnd[i] = h; }
    for (i = 0; i < ncol; i++) for (j = 0; j < i; j++) VP_ASSERT(hnd[i] != hnd[j], "P25 different colours have different handles");
    emf(a, vp_name);
    for (p = 0; p < on && p < vp_gotlen && o[p] == (unsigned char)vp_got[p]; p++) ;
    if (p != on || p != vp_gotlen) { fprintf(stderr, "VP: FAILED: P25 the file holds the records of the picture: byte %zu of %zu (expected %zu) case: %s\n", p, vp_gotlen, on, vp_case_text); fflush(stderr); _exit(1); }
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "P25 everything is freed");
  }
  VP_DONE();
}
