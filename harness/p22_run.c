/* P22-P24 executed: text files of generated pictures against the text the
 * properties call for.  One format per build (VP_EPS, VP_EPD, VP_P2E, VP_PDF,
 * VP_SK, VP_POV, VP_ER). */
#include "autotrace.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
const char *at_version(bool l) { return "V"; }
char *at_time_string(void) { return strdup("T"); }
#if defined(VP_EPS)
#include "output-eps.c"
#define WRITER output_eps_writer
#elif defined(VP_EPD)
#include "output-epd.c"
#define WRITER output_epd_writer
#elif defined(VP_P2E)
#include "output-p2e.c"
#define WRITER output_p2e_writer
#elif defined(VP_PDF)
#include "output-pdf.c"
#define WRITER output_pdf_writer
#elif defined(VP_SK)
#include "output-sk.c"
#define WRITER output_sk_writer
#elif defined(VP_POV)
#include "output-pov.c"
#define WRITER output_pov_writer
#elif defined(VP_ER)
#include "output-er.c"
#define WRITER output_er_writer
#endif
#include "vp_shape.h"
static const char *body;   /* the part of the file that holds the picture */
static int same_col(at_color p, at_color q) { return p.r == q.r && p.g == q.g && p.b == q.b; }
static int begins(spline_list_array_type a, unsigned i) { return i == 0 || !same_col(a.data[i - 1].color, a.data[i].color); }
static int ends(spline_list_array_type a, unsigned i) { return i + 1 == a.length || !same_col(a.data[i + 1].color, a.data[i].color); }
static void real(float r) { if (r == floorf(r)) ex("%.0f ", r); else ex("%.3f ", r); }
static void points(spline_type s, int from, int to) { int j; for (j = from; j <= to; j++) { real(s.v[j].x); real(s.v[j].y); } }
static void rgb(const char *f, at_color c) { ex(f, c.r / 255.0, c.g / 255.0, c.b / 255.0); }
static void cmyk(const char *op, at_color c)
{
  int m = c.r > c.g ? c.r : c.g; if (c.b > m) m = c.b;
  ex("%.3f %.3f %.3f %.3f %s\n", (m - c.r) / 255.0, (m - c.g) / 255.0, (m - c.b) / 255.0, (255 - m) / 255.0, op);
}
/* the header line holding the bounding box, and where the picture starts */
static void box(const char *fmt)
{
  char b[200];
  snprintf(b, sizeof b, fmt, vp_llx, vp_lly, vp_urx, vp_ury);
  VP_ASSERT(strstr(vp_got, b) != NULL, "the file holds the bounding box of the picture");
}
static void outline(spline_list_type l, const char *m, const char *li, const char *c)
{
  unsigned k;
  points(l.data[0], 0, 0); ex("%s\n", m);
  for (k = 0; k < l.length; k++)
    if (l.data[k].degree == LINEARTYPE) { points(l.data[k], 3, 3); ex("%s\n", li); }
    else { points(l.data[k], 1, 3); ex("%s\n", c); }
}
static void expect(spline_list_array_type a)
{
  unsigned i, k; int st;
#if defined(VP_EPS)
  VP_ASSERT(!strncmp(vp_got, "%!PS-Adobe-3.0 EPSF-3.0\n", 24), "the file says what it is");
  box("\n%%%%BoundingBox: %d %d %d %d\n");
  body = strstr(vp_got, "%%EndSetup\n"); VP_ASSERT(body != NULL, "the prolog is complete"); body += 11;
  for (i = 0; i < a.length; i++) {
    st = a.centerline || a.data[i].open;
    if (begins(a, i)) { cmyk(st ? "K" : "k", a.data[i].color); ex("*u\n"); }
    outline(a.data[i], "m", "l", "c");
    ex(st ? "S\n" : "f\n");
    if (ends(a, i)) ex("*U\n");
  }
  ex("%%%%Trailer\n%%%%EOF\n");
#elif defined(VP_EPD)
  VP_ASSERT(!strncmp(vp_got, "%EPD-1.0\n", 9), "the file says what it is");
  { char b[200]; snprintf(b, sizeof b, "\n%%BBox(%d,%d,%d,%d)\n", vp_llx, vp_lly, vp_urx, vp_ury); body = strstr(vp_got, b); VP_ASSERT(body != NULL, "the file holds the bounding box of the picture"); body += strlen(b); }
  for (i = 0; i < a.length; i++) {
    st = a.centerline || a.data[i].open;
    if (begins(a, i)) { if (i) ex("h\n"); rgb("%.3f %.3f %.3f ", a.data[i].color); ex(st ? "RG\n" : "rg\n"); }
    outline(a.data[i], "m", "l", "c");
    if (ends(a, i)) ex(st ? "S\n" : "f\n");
  }
#elif defined(VP_P2E)
  unsigned nr = 1; int curves = 0;
  for (i = 0; i < a.length; i++) for (k = 0; k < a.data[i].length; k++) if (a.data[i].data[k].degree != LINEARTYPE) curves = 1;
  VP_ASSERT(!strncmp(vp_got, "%!PS-Adobe-3.0\n", 15), "the file says what it is");
  VP_ASSERT(strstr(vp_got, curves ? "\n0 0 backendconstraints\n" : "\n1 0 backendconstraints\n") != NULL, "the file says whether it has curves");
  body = strstr(vp_got, "%%EndSetup\n"); VP_ASSERT(body != NULL, "the prolog is complete"); body += 11;
  ex(" 612 792 setPageSize\n 0 setlinecap\n 10.0 setmiterlimit\n 0 setlinejoin\n [ ] 0.0 setdash\n 1.0 setlinewidth\n");
  st = 0;
  for (i = 0; i < a.length; i++) {
    st = a.centerline || a.data[i].open;
    if (begins(a, i)) { ex(st ? "stroke\n" : "fill\n"); ex("\n\n%% %u pathnumber\n%s\n", nr++, st ? "% strokedpath" : "% filledpath"); cmyk("setcmykcolor", a.data[i].color); }
    ex("newpath\n ");
    points(a.data[i].data[0], 0, 0); ex("moveto\n");
    for (k = 0; k < a.data[i].length; k++)
      if (a.data[i].data[k].degree == LINEARTYPE) { ex(" "); points(a.data[i].data[k], 3, 3); ex("lineto\n"); }
      else { ex(" "); points(a.data[i].data[k], 1, 3); ex("curveto\n"); }
    if (!a.data[i].open) ex("closepath\n");
  }
  if (a.length) ex(st ? "stroke\n" : "fill\n");
  ex("showpage\n%%%%BoundingBox: %d %d %d %d\n%%%%Page: 1 1\n%% normal end reached by pstoedit.pro\n%%%%Trailer\n%%%%Pages: 1\n%%%%EOF\n", vp_llx, vp_lly, vp_urx, vp_ury);
#elif defined(VP_PDF)
  /* the objects are where the cross-reference table says, the stream as long as declared */
  const char *p, *x, *e; long start, n; unsigned long len, off; char b[300];
  VP_ASSERT(vp_gotlen > 9 && !strncmp(vp_got, "%PDF-1.", 7), "the file says what it is");
  VP_ASSERT(vp_gotlen > 6 && !strcmp(vp_got + vp_gotlen - 6, "%%EOF\n"), "the file ends with its end mark");
  for (p = vp_got, x = NULL; (p = strstr(p, "startxref\n")); p++) x = p;
  VP_ASSERT(x && sscanf(x, "startxref\n%ld\n%%%%EOF", &start) == 1 && start > 0 && start < (long)vp_gotlen, "the end of the file tells where the table is");
  VP_ASSERT(!strncmp(vp_got + start, "xref\n0 7\n", 9), "the end of the file tells where the table is");
  for (n = 0; n < 7; n++) {
    e = vp_got + start + 9 + 20 * n;
    VP_ASSERT(e + 20 <= vp_got + vp_gotlen && e[10] == ' ' && e[16] == ' ' && e[19] == '\n', "entries of the table are twenty bytes long");
    if (n == 0) { VP_ASSERT(!strncmp(e, "0000000000 65535 f", 18), "entry 0 is free"); continue; }
    VP_ASSERT(sscanf(e, "%lu 00000 n", &off) == 1 && e[17] == 'n' && off < vp_gotlen, "entries point into the file");
    snprintf(b, sizeof b, "%ld 0 obj\n", n);
    VP_ASSERT(!strncmp(vp_got + off, b, strlen(b)), "every object is where the table says");
  }
  VP_ASSERT(strstr(vp_got + start, "/Size 7") && strstr(vp_got + start, "/Root 1 0 R"), "the trailer names the root and the number of objects");
  snprintf(b, sizeof b, "/MediaBox [%d %d %d %d]\n", vp_llx, vp_lly, vp_urx, vp_ury);
  VP_ASSERT(strstr(vp_got, b) != NULL, "the page has the bounding box of the picture");
  p = strstr(vp_got, "/Length "); VP_ASSERT(p && sscanf(p, "/Length %lu >>", &len) == 1, "the stream declares its length");
  p = strstr(p, "stream\n"); VP_ASSERT(p != NULL, "the stream follows"); p += 7;
  VP_ASSERT(p + len < vp_got + vp_gotlen && !strncmp(p + len, "endstream\n", 10), "the stream is as long as declared");
  for (i = 0; i < a.length; i++) {
    st = a.centerline || a.data[i].open;
    if (begins(a, i)) { rgb("%.3f %.3f %.3f ", a.data[i].color); ex(st ? "RG\n" : "rg\n"); }
    outline(a.data[i], "m", "l", "c");
    if (ends(a, i)) ex(st ? "S\n" : "f\n");
  }
  ((char *)p)[len] = 0;
  body = p;
#elif defined(VP_SK)
  body = vp_got;
  ex("##Sketch 1 0\ndocument()\nlayer('Layer 1',1,1,0,0)\nguess_cont()\n");
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i];
    st = a.centerline || l.open;
    ex(st ? "lp" : "fp"); rgb("((%g,%g,%g))\n", l.color); ex(st ? "fe()\n" : "le()\n"); ex("b()\nbs(%g,%g,0)\n", l.data[0].v[0].x, l.data[0].v[0].y);
    for (k = 0; k < l.length; k++)
      if (l.data[k].degree == LINEARTYPE) ex("bs(%g,%g,0)\n", l.data[k].v[3].x, l.data[k].v[3].y);
      else ex("bc(%g,%g,%g,%g,%g,%g,0)\n", l.data[k].v[1].x, l.data[k].v[1].y, l.data[k].v[2].x, l.data[k].v[2].y, l.data[k].v[3].x, l.data[k].v[3].y);
    if (!st) ex("bC()\n");
  }
#elif defined(VP_POV)
  unsigned j, n, q;
  body = vp_got;
  for (i = 0; i < a.length; i = j) {
    for (j = i, n = 0; j < a.length && same_col(a.data[i].color, a.data[j].color); j++) n += 4 * a.data[j].length;
    ex("prism {\n  bezier_spline\n  0.0\n  0.0001\n  %u\n", n);
    for (k = i; k < j; k++) for (q = 0; q < a.data[k].length; q++) {
      spline_type s = a.data[k].data[q]; int li = s.degree == LINEARTYPE;
      if (k > i || q > 0) ex(",\n");
      ex("  <%.3f, %.3f>, <%.3f, %.3f>, <%.3f, %.3f>, <%.3f, %.3f>", s.v[0].x, s.v[0].y, s.v[li ? 0 : 1].x, s.v[li ? 0 : 1].y, s.v[li ? 3 : 2].x, s.v[li ? 3 : 2].y, s.v[3].x, s.v[3].y);
    }
    ex("\n  pigment {"); rgb("rgb<%.3f, %.3f, %.3f>}\n", a.data[i].color); ex("  translate <0.0, 0.0, 0.0>\n}\n");
  }
#elif defined(VP_ER)
  double w = (unsigned)(vp_urx - vp_llx), h = (unsigned)(vp_ury - vp_lly);
  body = vp_got;
  ex("#Elastic Reality Shape File\n\n#Date: T\n\nImageSize = {\n\tWidth = %d\n\tHeight = %d\n}\n\n", vp_urx - vp_llx, vp_ury - vp_lly);
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; int ring = !l.open && l.length > 1, pass; unsigned np = ring ? l.length : l.length + 1; float wt = (float)1.0 / a.width_weight_factor;
    ex("Shape = {\n\t#Shape Number %u\n\tGroup = Default\n\tType = Source\n\tRoll = A\n\tOpaque = True\n\tLocked = False\n\tWarp = True\n\tCookieCut = True\n\tColorCorrect = True\n\tPrecision = 10\n\tClosed = %s\n\tTween = Linear\n\tBPoints = %u\n\tCPoints = 4\n\tFormKey = {\n\t\tFrame = 1\n\t\tPointList = {\n", i + 1, l.open ? "False" : "True", np);
    for (pass = 0; pass < 2; pass++) {
      if (pass == 1) {
        if (!(a.centerline && a.preserve_width)) break;
        ex("\tWeightKey = {\n\t\tFrame = 1\n\t\tPointList = {\n");
      }
      for (k = 0; k < np; k++) {
        /* the control point before, the point, the control point after */
        at_real_coord pt = k < l.length ? l.data[k].v[0] : l.data[k - 1].v[3], be = pt, af = pt; spline_type *pr = k ? &l.data[k - 1] : ring ? &l.data[l.length - 1] : NULL;
        if (pr && (pr->degree == CUBICTYPE || k == l.length)) be = pr->v[2];
        if (k < l.length && l.data[k].degree == CUBICTYPE) af = l.data[k].v[1];
        if (pass == 0) ex("\t\t\t(%f, %f), (%f, %f), (%f, %f),\n", be.x / w, be.y / h, pt.x / w, pt.y / h, af.x / w, af.y / h);
        else ex("\t\t\t%g, %g, %g,\n", (double)be.z * wt, (double)pt.z * wt, (double)af.z * wt);
      }
      ex("\t\t}\n\n\t}\n\n");
    }
    ex("\tCorrKey = {\n\t\tFrame = 1\n\t\tPointList = {\n\t\t\t0");
    for (k = 1; k < 4; k++) ex(", %g", (np - (l.open ? 1.0 : 2.0)) * k / (4 - (l.open ? 1.0 : 0.0)));
    ex("\n\t\t}\n\n\t}\n\n}\n\n");
  }
#endif
}
void h_run(void)
{
  int n; size_t at;
  vp_seed(VP_S);
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a;
    vp_maxlists = n % 50 == 49 ? 300 : 9; vp_maxspl = n % 50 == 24 ? 300 : 9; vp_maxcol = n % 50 == 49 ? 60 : 5;
    if (n % 20 == 7) { vp_cmin = -99999; vp_cmax = 99999; } else { vp_cmin = -50; vp_cmax = 700; }
    a = vp_shape();
#ifdef VP_POV
    a.centerline = 0;
#endif
    vp_box(a); vp_describe(a); vp_cases++;
    vp_write(WRITER, a);
    expect(a);
    if (!vp_same_text(body, strlen(body), vp_exp ? vp_exp : "", vp_explen, &at)) {
      fprintf(stderr, "VP: FAILED: the file draws every outline once, with its points, colour and style: text differs at \"%.60s\" case: %s\n--- expected ---\n%.3000s\n--- written ---\n%.3000s\n", body + at, vp_case_text, vp_exp, body);
      fflush(stderr); _exit(1);
    }
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "everything is freed");
  }
  VP_DONE();
}
