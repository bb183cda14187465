/* Generated pictures for the writers, and the text a writer produces for them. */
#ifndef VP_SHAPE_H
#define VP_SHAPE_H
#include "spline.h"
#ifndef VP_N
#define VP_N 4000
#endif
#ifndef VP_S
#define VP_S 1
#endif
static unsigned long long vp_rs = 88172645463325252ull;
static void vp_seed(unsigned long long s) { vp_rs = s * 2862933555777941757ull + 3037000493ull; if (!vp_rs) vp_rs = 1; }
static unsigned vp_rand(unsigned n) { vp_rs ^= vp_rs << 13; vp_rs ^= vp_rs >> 7; vp_rs ^= vp_rs << 17; return (unsigned)((vp_rs >> 20) % n); }
/* what the pictures may contain */
static float vp_cmin = -50, vp_cmax = 700;
static unsigned vp_maxlists = 9, vp_maxspl = 9, vp_maxcol = 5;
static int vp_mixed_open;
static float vp_coord(void)
{
  switch (vp_rand(8)) {
  case 0: return vp_rand(700);
  case 1: return vp_rand(1400) / 2.0f;
  case 2: return vp_cmin;
  case 3: return vp_cmax;
  case 4: return vp_rand(100) / 8.0f;
  default: return vp_cmin + (vp_cmax - vp_cmin) * (vp_rand(1000003) / 1000003.0f);
  }
}
static at_real_coord vp_point(void) { at_real_coord p; p.x = vp_coord(); p.y = vp_coord(); p.z = vp_rand(64) / 8.0f; return p; }
static spline_list_array_type vp_shape(void)
{
  spline_list_array_type a; unsigned i, k, ncol = 1 + vp_rand(vp_maxcol); at_color col[64]; static at_color bg;
  memset(&a, 0, sizeof a);
  for (i = 0; i < ncol && i < 64; i++) {
    static const unsigned char v[] = { 0, 255, 127, 128, 1, 254 };
    col[i].r = vp_rand(2) ? vp_rand(256) : v[vp_rand(6)]; col[i].g = vp_rand(2) ? vp_rand(256) : v[vp_rand(6)]; col[i].b = vp_rand(2) ? vp_rand(256) : v[vp_rand(6)];
    if (vp_rand(3) == 0) col[i].g = col[i].b = col[i].r;
  }
  a.length = vp_rand(10) ? 1 + vp_rand(vp_maxlists) : 0;
  a.data = a.length ? malloc(a.length * sizeof *a.data) : NULL;
  a.height = 1 + vp_rand(700); a.width = 1 + vp_rand(700);
  a.centerline = vp_rand(3) == 0; a.preserve_width = vp_rand(2); a.width_weight_factor = 0.5f + vp_rand(40);
  a.background_color = vp_rand(2) ? &bg : NULL;
  int open = !a.centerline && vp_rand(5) == 0;
  for (i = 0; i < a.length; i++) {
    spline_list_type l; at_real_coord p = vp_point();
    memset(&l, 0, sizeof l);
    l.length = 1 + vp_rand(vp_maxspl); l.data = malloc(l.length * sizeof *l.data);
    l.color = i && vp_rand(3) == 0 ? a.data[i - 1].color : col[vp_rand(ncol)];
    l.clockwise = vp_rand(2); l.open = a.centerline || vp_mixed_open ? vp_rand(2) : open;
    unsigned kind = vp_rand(5);
    for (k = 0; k < l.length; k++) {
      spline_type s;
      s.v[0] = p; s.v[1] = vp_point(); s.v[2] = vp_point(); p = s.v[3] = k == l.length - 1 && !l.open ? l.data[0].v[0] : vp_point();
      if (k == 0 && l.length == 1 && !l.open) s.v[3] = s.v[0];
      s.degree = kind == 0 || kind > 1 && vp_rand(2) ? LINEARTYPE : CUBICTYPE; s.linearity = vp_rand(8);
      if (s.degree == LINEARTYPE) { s.v[1] = s.v[0]; s.v[2] = s.v[3]; }
      l.data[k] = s;
    }
    a.data[i] = l;
  }
  return a;
}
static void vp_shape_free(spline_list_array_type a) { unsigned i; for (i = 0; i < a.length; i++) free(a.data[i].data); free(a.data); }
static spline_list_array_type vp_shape_copy(spline_list_array_type a)
{
  spline_list_array_type b = a; unsigned i;
  b.data = a.length ? malloc(a.length * sizeof *a.data) : NULL;
  for (i = 0; i < a.length; i++) { b.data[i] = a.data[i]; b.data[i].data = malloc(a.data[i].length * sizeof(spline_type)); memcpy(b.data[i].data, a.data[i].data, a.data[i].length * sizeof(spline_type)); }
  return b;
}
static int vp_shape_same(spline_list_array_type a, spline_list_array_type b)
{
  unsigned i, k, j;
  if (a.length != b.length || a.height != b.height || a.width != b.width || a.centerline != b.centerline || a.preserve_width != b.preserve_width || a.width_weight_factor != b.width_weight_factor) return 0;
  for (i = 0; i < a.length; i++) {
    spline_list_type p = a.data[i], q = b.data[i];
    if (p.length != q.length || p.clockwise != q.clockwise || p.open != q.open || memcmp(&p.color, &q.color, sizeof p.color)) return 0;
    for (k = 0; k < p.length; k++) {
      if (p.data[k].degree != q.data[k].degree || p.data[k].linearity != q.data[k].linearity) return 0;
      for (j = 0; j < 4; j++) if (p.data[k].v[j].x != q.data[k].v[j].x || p.data[k].v[j].y != q.data[k].v[j].y || p.data[k].v[j].z != q.data[k].v[j].z) return 0;
    }
  }
  return 1;
}
/* expected text */
static char *vp_exp; static size_t vp_explen, vp_expcap;
static void ex(const char *f, ...)
{
  char b[1024]; va_list ap; int n;
  va_start(ap, f); n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (vp_explen + n + 1 > vp_expcap) { vp_expcap = 2 * (vp_explen + n + 4096); vp_exp = vp_real_realloc(vp_exp, vp_expcap); }
  memcpy(vp_exp + vp_explen, b, n + 1); vp_explen += n;
}
static int vp_blank(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
/* same text up to white space */
static int vp_same_text(const char *a, size_t n, const char *b, size_t m, size_t *where)
{
  size_t i = 0, j = 0;
  for (;;) {
    int wa = 0, wb = 0;
    while (i < n && vp_blank((unsigned char)a[i])) i++, wa = 1;
    while (j < m && vp_blank((unsigned char)b[j])) j++, wb = 1;
    *where = i;
    if (i == n || j == m) return i == n && j == m;
    if (a[i] != b[j] || wa != wb) return 0;
    i++; j++;
  }
}
typedef int (*vp_writer)(FILE *, char *, int, int, int, int, at_output_opts_type *, spline_list_array_type, at_msg_func, void *, void *);
static char *vp_got; static size_t vp_gotlen;
static int vp_llx, vp_lly, vp_urx, vp_ury;
static at_output_opts_type vp_oopts;
static void vp_describe(spline_list_array_type a)
{
  int n = 0; unsigned i, k, j;
#define D(...) do { if (n < (int)sizeof vp_case_text - 300) n += snprintf(vp_case_text + n, sizeof vp_case_text - n, __VA_ARGS__); } while (0)
  D("box %d %d %d %d, size %ux%u, centerline %d, %u outlines:", vp_llx, vp_lly, vp_urx, vp_ury, a.width, a.height, a.centerline, a.length);
  for (i = 0; i < a.length; i++) {
    D(" [#%02x%02x%02x%s%s", a.data[i].color.r, a.data[i].color.g, a.data[i].color.b, a.data[i].open ? " open" : "", a.data[i].clockwise ? " cw" : "");
    for (k = 0; k < a.data[i].length; k++) { D(" %s", a.data[i].data[k].degree == LINEARTYPE ? "line" : "curve"); for (j = 0; j < 4; j++) D(" %g,%g", a.data[i].data[k].v[j].x, a.data[i].data[k].v[j].y); }
    D("]");
  }
}
static int vp_keep_box;
static char vp_name[400] = "a name";
static void vp_write(vp_writer w, spline_list_array_type a)
{
  spline_list_array_type c = vp_shape_copy(a); FILE *f; int rc; long before = vp_blocks;
  vp_got = NULL; vp_gotlen = 0;
  f = open_memstream(&vp_got, &vp_gotlen);
  rc = w(f, vp_name, vp_llx, vp_lly, vp_urx, vp_ury, &vp_oopts, a, NULL, NULL, NULL);
  fclose(f);
  VP_ASSERT(rc == 0, "the writer reports success");
  VP_ASSERT(vp_shape_same(a, c), "the writer leaves the picture alone");
  VP_ASSERT(vp_blocks == before, "the writer frees what it allocates");
  vp_shape_free(c);
}
static void vp_got_free(void) { vp_real_free(vp_got); vp_got = NULL; vp_explen = 0; if (vp_exp) vp_exp[0] = 0; }
static void vp_box(spline_list_array_type a) { vp_llx = vp_rand(3) ? 0 : (int)vp_rand(200); vp_lly = vp_rand(3) ? 0 : (int)vp_rand(200); vp_urx = vp_llx + a.width; vp_ury = vp_lly + a.height; }
static void vp_check_text(const char *msg)
{
  size_t at;
  if (!vp_same_text(vp_got, vp_gotlen, vp_exp, vp_explen, &at)) {
    fprintf(stderr, "VP: FAILED: %s: text differs at byte %zu: \"%.60s\" case: %s\n", msg, at, vp_got + at, vp_case_text);
    fprintf(stderr, "--- expected ---\n%.3000s\n--- written ---\n%.3000s\n", vp_exp, vp_got); fflush(stderr); _exit(1);
  }
}
#endif
