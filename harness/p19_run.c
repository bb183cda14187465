/* P19 (paths) and P20 (fit), executed on the real code: src/fit.c with everything below it, through fitted_splines.
 * The reference for P20 is written from the documented rules: corners by angle, knees, smoothing, least squares
 * along the tangents, subdivision at the worst point, lines where straight enough. */
#include "autotrace.h"
#include "vp.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "autotrace.c"
#include "spline.c"
#include "curve.c"
#include "vector.c"
#include "epsilon-equal.c"
#include "image-proc.c"
#include "pxl-outline.c"
#include "fit.c"
#include <float.h>
static unsigned rs = 1;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }
static int vp_fatals, vp_ptag, vp_ctag, vp_asked, vp_stop_at;
static float vp_last;
static void vp_msg(const char *m, at_msg_type t, void *d) { if (t == AT_MSG_FATAL) vp_fatals++; }
static void vp_progress(float p, void *d) { VP_ASSERT(d == &vp_ptag && p >= vp_last - 1e-3 && p <= 1.0001, "P19 progress grows up to one and goes to the caller with the caller's data"); vp_last = p; }
static bool vp_cancel(void *d) { VP_ASSERT(d == &vp_ctag, "P19 cancellation is asked with the caller's data"); return ++vp_asked == vp_stop_at; }
static bool veq(at_real_coord a, at_real_coord b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
#ifdef VP_REF
/* ---- reference ---- */
#define MAXP 20000
typedef struct { float x, y, z; } V;
typedef struct { V v[4]; int cubic; float lin; } S;
static S out[MAXP]; static int nout;
static const fitting_opts_type *O;
static V add(V a, V b) { V c = { a.x + b.x, a.y + b.y, a.z + b.z }; return c; }
static V sub(V a, V b) { V c = { a.x - b.x, a.y - b.y, a.z - b.z }; return c; }
static V mul(V a, float s) { V c = { a.x * s, a.y * s, a.z * s }; return c; }
static float dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static float len(V a) { return (float)sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
static V at(const S *s, float t) { V p[4]; int i, k; for (i = 0; i < 4; i++) p[i] = s->v[i]; for (k = 3; k > 0; k--) for (i = 0; i < k; i++) p[i] = add(mul(p[i], 1 - t), mul(p[i + 1], t)); return p[0]; }
static float angle(const at_coord *p, int n, int at, int surround)
{
  vector_type in = { 0, 0, 0 }, ou = { 0, 0, 0 }; int k; at_exception_type e = at_exception_new(NULL, NULL);
  for (k = 1; k <= surround; k++) {
    int a = ((at - k) % n + n) % n, b = (at + k) % n;
    in.dx += p[a].x - p[at].x; in.dy += p[a].y - p[at].y; ou.dx += p[b].x - p[at].x; ou.dy += p[b].y - p[at].y;
  }
  /* the angle as the code rounds it, compared with the true one */
  float a = Vangle(in, ou, &e);
  double t = in.dx == 0 && in.dy == 0 || ou.dx == 0 && ou.dy == 0 ? 90 : atan2(fabs((double)in.dx * ou.dy - (double)in.dy * ou.dx), (double)in.dx * ou.dx + (double)in.dy * ou.dy) * 180 / M_PI, k1 = fabs(sin(t * M_PI / 180)) > 0.1 ? 0.001 : 0.3;
  VP_ASSERT(fabs(a - t) <= k1, "P20 the angle at a pixel is that between the surrounding pixels on either side");
  return a;
}
static int corners(const at_coord *p, int n, int open, int sur, int *c)
{
  int nc = 0, first = 0, last = n - 1, i, j, k, m, r[MAXP];
  if (open) { if (last <= sur * 2) return 0; c[nc++] = 0; first += sur; last -= sur; }
  for (i = first; i <= last; i++) {
    float a = angle(p, n, i, sur), best; int at, q = i, same[MAXP], ns = 0;
    if (!(a <= O->corner_threshold)) continue;
    best = a; at = i;
    if (a <= O->corner_always_threshold) c[nc++] = i;
    for (j = i + 1; j < at + sur && j < n; j++) {
      a = angle(p, n, q = j, sur);
      if (fabs(a - best) <= 0.00001) same[ns++] = j;
      else if (a < best) { best = a; at = j; ns = 0; }
      if (a <= O->corner_always_threshold) c[nc++] = j;
    }
    if (best > O->corner_always_threshold) { c[nc++] = at; for (k = 0; k < ns; k++) c[nc++] = same[k]; }
    i = q;
  }
  if (!nc) return 0;
  for (i = 1; i < nc; i++) for (j = i; j > 0 && c[j] < c[j - 1]; j--) { k = c[j]; c[j] = c[j - 1]; c[j - 1] = k; }
  for (m = 0, j = 0; j < nc - 1; j++) { int cur = c[j]; if (O->remove_adjacent_corners && c[j + 1] <= cur + 1) j++; r[m++] = cur; }
  if (m == 0 || !(c[nc - 1] == r[m - 1] + 1 || (c[nc - 1] == n - (open ? 2 : 1) && c[0] == 0))) r[m++] = c[nc - 1];
  memcpy(c, r, m * sizeof *r);
  return m;
}
static int knees(V *p, int n, int cyclic, int clockwise)
{
  static V q[MAXP]; int m = 0, i, off = !cyclic; V prev = cyclic ? p[n - 1] : p[0];
  if (off) q[m++] = p[0];
  for (i = off; i < n - off; i++) {
    V cur = p[i], next = p[(i + 1) % n]; float ax = prev.x - cur.x, ay = prev.y - cur.y, bx = next.x - cur.x, by = next.y - cur.y;
    int right = ((ax == 0) != (ay == 0)) && ((bx == 0) != (by == 0)), knee = 0;
    if (right && clockwise) knee = (ax == -1 && by == 1) || (ay == 1 && bx == 1) || (ax == 1 && by == -1) || (ay == -1 && bx == -1);
    if (right && !clockwise) knee = (ay == 1 && bx == -1) || (ax == 1 && by == 1) || (ay == -1 && bx == 1) || (ax == -1 && by == -1);
    if (!knee) { q[m++] = cur; prev = cur; }
  }
  if (off) q[m++] = p[n - 1];
  memcpy(p, q, m * sizeof *q);
  return m;
}
static void smooth(V *p, int n, int cyclic)
{
  static V q[MAXP]; unsigned it; int i, off = !cyclic; V last = { FLT_MAX, FLT_MAX, FLT_MAX };
  if (n < 5) return;
  for (it = 0; it < O->filter_iterations; it++) {
    int flat = 0;
    for (i = off; i < n - off && !flat; i++) {
      V in = { 0, 0, 0 }, ou = { 0, 0, 0 }, s; int k;
      for (k = 1; k <= 2; k++) { if (cyclic || i - k >= 0) in = add(in, sub(p[(i - k + n) % n], p[i])); if (cyclic || i + k < n) ou = add(ou, sub(p[(i + k) % n], p[i])); }
      s = add(in, ou);
      q[i].x = p[i].x + s.x / 6; q[i].y = p[i].y + s.y / 6; q[i].z = p[i].z + s.z / 6;
      if (fabs(last.x - q[i].x) < 0.3 && fabs(last.y - q[i].y) < 0.3 && fabs(last.z - q[i].z) < 0.3) flat = 1; else last = q[i];
    }
    if (!flat) for (i = off; i < n - off; i++) p[i] = q[i];
  }
}
static int nhalf, amb;
static V half(const V *p, int n, int start, unsigned surround)
{
  V s = { 0, 0, 0 }; unsigned k; const V *e = start ? p : p + n - 1;
  if (surround > (unsigned)n / 2) surround = n / 2;
  for (k = 1; k <= surround; k++) s = add(s, start ? sub(e[k], *e) : sub(*e, *(e - k)));
  nhalf += surround;
  return s;
}
static V tangent(const V *p, int n, int start, const V *other, int m)
{
  unsigned sur = O->tangent_surround ? O->tangent_surround : 1; V t;
  nhalf = 0;
  do { t = half(p, n, start, sur--); if (other) t = add(t, half(other, m, 1, sur + 1)); } while (t.x == 0 && t.y == 0 && sur > 0);
  return mul(t, (float)(1.0 / nhalf));
}
static float T[MAXP];
static void fit(const V *p, int n, int cyclic, const V *t1in, const V *t2in)
{
  S s; int i; V t1, t2;
  if (n < 2) return;
  s.v[0] = p[0]; s.v[3] = p[n - 1];
  if (n < 4) { s.v[1] = p[0]; s.v[2] = p[n - 1]; s.cubic = 0; s.lin = 0; out[nout++] = s; return; }
  if (cyclic) t1 = t2 = tangent(p, n, 0, p, n);
  else { t1 = t1in ? *t1in : tangent(p, n, 1, NULL, 0); t2 = t2in ? *t2in : tangent(p, n, 0, NULL, 0); }
  T[0] = 0;
  for (i = 1; i < n; i++) T[i] = T[i - 1] + len(sub(p[i], p[i - 1]));
  if (T[n - 1] == 0) T[n - 1] = 1;
  for (i = 1; i < n; i++) T[i] /= T[n - 1];
  { float c00 = 0, c01 = 0, c11 = 0, x0 = 0, x1 = 0, det, a1 = 0, a2 = 0;
    for (i = 0; i < n; i++) {
      float t = T[i], u = 1 - t, b0 = u * u * u, b1 = 3.0f * t * (u * u), b2 = 3.0f * (t * t) * u, b3 = t * t * t;
      V q1 = mul(t1, b1), q2 = mul(t2, b2), r = sub(p[i], add(mul(p[0], b0), add(mul(p[0], b1), add(mul(p[n - 1], b2), mul(p[n - 1], b3)))));
      c00 += dot(q1, q1); c01 += dot(q1, q2); c11 += dot(q2, q2); x0 += dot(r, q1); x1 += dot(r, q2);
    }
    det = c00 * c11 - c01 * c01;
    if (det != 0) { a1 = (x0 * c11 - x1 * c01) / det; a2 = (c00 * x1 - c01 * x0) / det; }
    s.v[1] = add(p[0], mul(t1, a1)); s.v[2] = add(p[n - 1], mul(t2, a2)); }
  s.cubic = 1; s.lin = 0;
  { float worst = FLT_MIN; int w = n;
    for (i = 0; i < n; i++) { float e = len(sub(p[i], at(&s, T[i]))); if (e >= worst) { worst = e; w = i; } }
    /* rounding may decide: equally bad points, an error at the threshold */
    for (i = 0; i < n; i++) if (i != w && w < n && fabs(len(sub(p[i], at(&s, T[i]))) - worst) < 1e-4 * (1 + worst) && !(worst < O->error_threshold - 1e-3)) amb = 1;
    if (fabs(worst - O->error_threshold) < 1e-3) amb = 1;
    if (!cyclic && (worst < O->error_threshold || w == n)) {
      V d = sub(p[n - 1], p[0]); float dd = dot(d, d), sum = 0;
      for (i = 0; i < n; i++) { V e = sub(at(&s, T[i]), p[0]); float k = dot(d, e) / dd; sum += len(sub(e, mul(d, k))); }
      s.lin = sum / (n - 1);
      if (fabs(s.lin - O->line_threshold) < 1e-3 || fabs(s.lin - dd * 0.5f) < 1e-3 || fabs(s.lin - O->line_reversion_threshold) < 1e-4) amb = 1;
      if (s.lin < (dd * 0.5f > O->line_threshold ? O->line_threshold : dd * 0.5f)) s.cubic = 0;
      out[nout++] = s;
    } else {
      if (w == 0 || w >= n - 1) w = n / 2;
      V m = tangent(p, w + 1, 0, p + w, n - w);
      fit(p, w + 1, 0, &t1, &m); fit(p + w, n - w, 0, &m, &t2);
    } }
}
static void piece(V *p, int n, int cyclic, int clockwise, const at_distance_map *dist)
{
  int i, from = nout, cubic = 0;
  n = knees(p, n, cyclic, clockwise);
  if (dist) for (i = 0; i < n; i++) {
    int x = p[i].x, y = dist->height - (int)p[i].y - 1, dx, dy; float w = dist->d[y][x];
    for (dy = -1; dy <= 1; dy++) for (dx = -1; dx <= 1; dx++) {
      if (y + dy < 0 || y + dy >= (int)dist->height || x + dx < 0 || x + dx >= (int)dist->width || (dy == 0 && y == 0)) continue;
      if (dist->d[y + dy][x + dx] > w) w = dist->d[y + dy][x + dx];
    }
    p[i].z = w * O->width_weight_factor;
  }
  smooth(p, n, cyclic);
  if (cyclic) p[n] = p[0], n++;
  fit(p, n, cyclic, NULL, NULL);
  for (i = from; i < nout; i++) cubic |= out[i].cubic;
  if (cubic) for (i = from; i < nout; i++) if (!out[i].cubic && out[i].lin > O->line_reversion_threshold) out[i].cubic = 1;
}
static void reference(const pixel_outline_type *o, const at_distance_map *dist)
{
  static V p[MAXP]; static int c[MAXP]; int nc = 0, i, k, n = o->length, m;
  nout = amb = 0;
  if (n > (int)O->corner_surround * 2 + 2) nc = corners(o->data, n, o->open, O->corner_surround, c);
  else if ((n - 3) / 2 >= 2) nc = corners(o->data, n, o->open, (n - 3) / 2, c);
  for (k = 0; k < (nc ? nc : 1); k++) {
    int from = nc ? c[k] : 0, to = nc ? k + 1 < nc ? c[k + 1] : o->open ? n - 1 : n + c[0] : n - 1;
    for (m = 0, i = from; i <= to; i++, m++) { p[m].x = o->data[i % n].x; p[m].y = o->data[i % n].y; p[m].z = 0; }
    piece(p, m, !nc && !o->open, o->clockwise, dist);
  }
}
static bool near(at_real_coord a, V b) { double k = 1e-3 * (1 + fabs(b.x) + fabs(b.y) + fabs(b.z)); return fabs(a.x - b.x) <= k && fabs(a.y - b.y) <= k && fabs(a.z - b.z) <= k; }
#endif
static void one(at_bitmap *b, fitting_opts_type *opt)
{
  at_exception_type e = at_exception_new(vp_msg, NULL);
  at_color white = { 255, 255, 255 }; pixel_outline_list_type l; spline_list_array_type r; at_distance_map dm, *dist = NULL; unsigned i, j, k; fitting_opts_type save = *opt;
  long blocks;
  vp_cases++;
  vp_fatals = 0; vp_last = 0.333f; vp_asked = 0;
  if (opt->centerline) { if (opt->preserve_width) { dm = new_distance_map(b, 255, true, &e); dist = &dm; } l = find_centerline_pixels(b, opt->background_color ? *opt->background_color : white, NULL, NULL, NULL, NULL, &e); }
  else l = find_outline_pixels(b, opt->background_color, NULL, NULL, NULL, NULL, &e);
  blocks = vp_blocks;
  r = fitted_splines(l, opt, dist, b->width + 3, b->height + 5, &e, vp_progress, &vp_ptag, vp_cancel, &vp_ctag);
  VP_ASSERT(vp_fatals == 0, "P19 fitting raises no error");
  VP_ASSERT(!memcmp(&save, opt, sizeof save), "P19 fitting leaves the options alone");
  VP_ASSERT(r.width == (vp_u16)(b->width + 3) && r.height == (vp_u16)(b->height + 5) && r.centerline == opt->centerline && r.preserve_width == opt->preserve_width && r.width_weight_factor == opt->width_weight_factor, "P19 the drawing carries the size and the settings of the trace");
  VP_ASSERT(!r.background_color == !opt->background_color && (!r.background_color || r.background_color != opt->background_color && at_color_equal(r.background_color, opt->background_color)), "P19 the drawing has its own copy of the background color");
  VP_ASSERT(r.length == (vp_stop_at && vp_asked >= vp_stop_at ? vp_stop_at - 1 : l.length), "P19 every outline gives exactly one path (unless cancelled)");
  for (i = 0; i < r.length; i++) {
    spline_list_type *s = &r.data[i]; pixel_outline_type *o = &l.data[i];
    float x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
    VP_ASSERT(s->length >= 1 && s->data, "P19 every path has at least one spline");
    VP_ASSERT(at_color_equal(&s->color, &o->color) && s->clockwise == o->clockwise && s->open == o->open, "P19 a path has the color, direction and kind of its outline");
    for (j = 0; j < o->length; j++) { if (o->data[j].x < x0) x0 = o->data[j].x; if (o->data[j].x > x1) x1 = o->data[j].x; if (o->data[j].y < y0) y0 = o->data[j].y; if (o->data[j].y > y1) y1 = o->data[j].y; }
    for (j = 0; j < s->length; j++) {
      spline_type *p = &s->data[j];
      for (k = 0; k < 4; k++) VP_ASSERT(isfinite(p->v[k].x) && isfinite(p->v[k].y) && isfinite(p->v[k].z), "P19 all coordinates are finite");
      VP_ASSERT(p->degree == LINEARTYPE || p->degree == CUBICTYPE, "P19 a spline is a line or a cubic");
      VP_ASSERT(p->v[0].x >= x0 - 1e-3 && p->v[0].x <= x1 + 1e-3 && p->v[0].y >= y0 - 1e-3 && p->v[0].y <= y1 + 1e-3, "P19 splines join inside the bounds of the outline");
      if (j) VP_ASSERT(veq(p->v[0], s->data[j - 1].v[3]), "P19 every spline starts exactly where the one before ends");
    }
    if (!s->open) VP_ASSERT(veq(s->data[0].v[0], s->data[s->length - 1].v[3]), "P19 a closed path ends exactly where it starts");
    else VP_ASSERT(s->data[0].v[0].x == o->data[0].x && s->data[0].v[0].y == o->data[0].y && s->data[s->length - 1].v[3].x == o->data[o->length - 1].x && s->data[s->length - 1].v[3].y == o->data[o->length - 1].y, "P19 an open path leads from the first to the last pixel of its line");
#ifdef VP_REF
    O = opt; reference(o, dist);
    if (nout != (int)s->length && amb) continue;
    VP_ASSERT(nout == (int)s->length, "P20 a path has the splines that corners and accuracy demand");
    for (j = 0; j < s->length; j++) {
      VP_ASSERT(amb || near(s->data[j].v[0], out[j].v[0]) && near(s->data[j].v[3], out[j].v[3]), "P20 splines join at the corners and at the points worst fitted");
      VP_ASSERT(amb || (s->data[j].degree == CUBICTYPE) == out[j].cubic, "P20 lines are used exactly where straight enough");
      VP_ASSERT(amb || near(s->data[j].v[1], out[j].v[1]) && near(s->data[j].v[2], out[j].v[2]), "P20 control points lie on the tangents where the least squares fit puts them");
    }
#endif
  }
  free_spline_list_array(&r); if (r.background_color) at_color_free(r.background_color);
  VP_ASSERT(vp_blocks == blocks, "P19 fitting leaks nothing");
  free_pixel_outline_list(&l); if (dist) free_distance_map(dist);
}
static fitting_opts_type opts(int kind)
{
  static at_color bg = { 255, 255, 255 };
  static const float err[] = { 2, 2, 0.5f, 0.11f, 7.3f,
#ifdef VP_REF
    0.07f
#else
    0
#endif
  }, lt[] = { 1, 1, 0, 0.37f, 3.1f }, lr[] = { .01f, .01f, 0, 1.3f, .1f }, ct[] = { 100, 100, 91.3f, 137.7f, 61.1f, 179, 13 }, ca[] = { 60, 60, 44.3f, 101.9f, 3, 91.7f };
  fitting_opts_type o = new_fitting_opts();
  o.background_color = rnd(2) ? &bg : NULL;
  if (kind == 0) return o;
  if (rnd(2)) { o.error_threshold = err[rnd(6)]; o.line_threshold = lt[rnd(5)]; o.line_reversion_threshold = lr[rnd(5)]; }
  if (rnd(2)) { o.corner_threshold = ct[rnd(7)]; o.corner_always_threshold = ca[rnd(6)]; o.corner_surround = 1 + rnd(7); o.remove_adjacent_corners = rnd(2); }
  if (rnd(2)) { o.filter_iterations = rnd(7); o.tangent_surround = rnd(7); }
  if (rnd(3) == 0) { o.centerline = true; o.preserve_width = rnd(2); o.width_weight_factor = rnd(2) ? 6 : 0.7f; }
  return o;
}
static void say(at_bitmap *b, fitting_opts_type *o)
{
  char *t = vp_case_text; unsigned i;
  t += sprintf(t, "%ux%u bg %d err %g line %g rev %g ct %g ca %g cs %u adj %d filt %u ts %u center %d width %d", b->width, b->height, o->background_color != NULL, o->error_threshold, o->line_threshold, o->line_reversion_threshold, o->corner_threshold, o->corner_always_threshold, o->corner_surround, o->remove_adjacent_corners, o->filter_iterations, o->tangent_surround, o->centerline, o->preserve_width);
  t += sprintf(t, " pixels ");
  for (i = 0; i < b->width * b->height && i < 6000; i++) *t++ = b->bitmap[i] == 0 ? '#' : b->bitmap[i] == 255 ? '.' : '+';
  *t = 0;
}
static void go(at_bitmap *b, fitting_opts_type o) { if (getenv("VP_DUMP")) { say(b, &o); fprintf(stderr, "%s\n", vp_case_text); } say(b, &o); one(b, &o); }
void h_small(void)
{
  int w, h, kind; unsigned m;
  for (w = 1; w <= 5; w++) for (h = 1; h <= 5; h++) if (w * h <= 16) for (m = 0; m < 1u << w * h; m += w * h > 12 ? 7 : 1) {
    at_bitmap *b = at_bitmap_new(w, h, 1); int i;
    for (i = 0; i < w * h; i++) b->bitmap[i] = m >> i & 1 ? 0 : 255;
    rs = m + w * 64 + h;
    for (kind = 0; kind < 2; kind++) go(b, opts(kind));
    at_bitmap_free(b);
  }
  VP_DONE();
}
#ifndef VP_N
#define VP_N 300
#define VP_S 1
#endif
static void disc(at_bitmap *b, double cx, double cy, double rx, double ry, double rot, int c)
{
  int x, y;
  for (y = 0; y < b->height; y++) for (x = 0; x < b->width; x++) { double u = (x - cx) * cos(rot) + (y - cy) * sin(rot), v = (y - cy) * cos(rot) - (x - cx) * sin(rot); if (u * u / (rx * rx) + v * v / (ry * ry) <= 1) b->bitmap[y * b->width + x] = c; }
}
static void stroke(at_bitmap *b, int x0, int y0, int x1, int y1, int r, int c)
{
  int i, n = abs(x1 - x0) > abs(y1 - y0) ? abs(x1 - x0) : abs(y1 - y0), dx, dy;
  for (i = 0; i <= n; i++) for (dy = -r; dy <= r; dy++) for (dx = -r; dx <= r; dx++) { int x = x0 + (n ? (x1 - x0) * i / n : 0) + dx, y = y0 + (n ? (y1 - y0) * i / n : 0) + dy; if (x >= 0 && y >= 0 && x < b->width && y < b->height) b->bitmap[y * b->width + x] = c; }
}
static at_bitmap *picture(int max)
{
  at_bitmap *b = at_bitmap_new(1 + rnd(max), 1 + rnd(max), 1); int i, n = b->width * b->height, k, style = rnd(4);
  memset(b->bitmap, 255, n);
  if (style == 0) for (i = 0; i < n; i++) b->bitmap[i] = rnd(3) ? 255 : rnd(2) ? 0 : 128;
  else if (style == 1) { for (k = rnd(5) + 1; k; k--) disc(b, rnd(b->width), rnd(b->height), 1 + rnd(max / 2), 1 + rnd(max / 2), rnd(7), rnd(4) ? 0 : 255); }
  else if (style == 2) for (k = rnd(6) + 1; k; k--) stroke(b, rnd(b->width), rnd(b->height), rnd(b->width), rnd(b->height), rnd(3), rnd(4) ? 0 : 128);
  else { for (k = rnd(4) + 1; k; k--) disc(b, rnd(b->width), rnd(b->height), 1 + rnd(max / 2), 1 + rnd(max / 2), rnd(7), rnd(2) ? 0 : 128); for (k = rnd(4); k; k--) stroke(b, rnd(b->width), rnd(b->height), rnd(b->width), rnd(b->height), 0, rnd(2) ? 0 : 255); }
  return b;
}
void h_pictures(void)
{
  int i;
  rs = VP_S;
  for (i = 0; i < VP_N; i++) {
    at_bitmap *b = picture(i % 10 == 0 ? 150 : i % 3 ? 24 : 60);
    go(b, opts(i % 4 != 0));
    if (i % 8 == 0) { vp_stop_at = 1 + rnd(4); go(b, opts(0)); vp_stop_at = 0; }
    at_bitmap_free(b);
  }
  VP_DONE();
}
/* the same drawing whatever was fitted before */
void h_repeat(void) { h_pictures(); }
