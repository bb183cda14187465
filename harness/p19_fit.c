/* P19/P20 by contract: the functions of src/fit.c, callees replaced by their contracts (goto-instrument --replace-calls). */
#include "autotrace.h"
#include "vp.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "vector.c"
#include "epsilon-equal.c"
#include "spline.c"
#include "curve.c"
#include "pxl-outline.h"
#include "fit.c"
#define NMAX 100000
static unsigned vp_warnings, vp_fatal;
static void vp_msg(const char *m, at_msg_type t, void *d) { if (t == AT_MSG_FATAL) vp_fatal++; else vp_warnings++; }
static at_real_coord any(void) { at_real_coord c; c.x = nd_float(); c.y = nd_float(); c.z = nd_float(); return c; }
static bool same(at_real_coord a, at_real_coord b) { return VP_FEQ(a.x, b.x) && VP_FEQ(a.y, b.y) && VP_FEQ(a.z, b.z); }
static fitting_opts_type opt;
static curve_type top; static unsigned n; static at_real_coord first, last;
static curve_type a_curve(unsigned min)
{
  curve_type c = new_curve();
  n = nd_u32(); VP_ASSUME(n >= min && n <= NMAX);
  first = any(); last = any();
  c->length = n; c->point_list = malloc((size_t)n * sizeof(point_type));
  c->point_list[0].coord = first; c->point_list[n - 1].coord = last; first = c->point_list[0].coord;
  c->cyclic = nd_bool();
  return top = c;
}
void h_line(void)
{
  curve_type c = a_curve(1); spline_list_type *l = fit_with_line(c); spline_type s;
  VP_ASSERT(l && l->length == 1, "P19 a short curve becomes one line");
  s = l->data[0];
  VP_ASSERT(same(s.v[0], first) && same(s.v[1], first) && same(s.v[2], last) && same(s.v[3], last), "P19 the line leads from the first to the last point");
  VP_ASSERT(s.degree == LINEARTYPE && s.linearity == 0, "P20 the line stays a line");
  free(l->data); free(l); free(c->point_list); free(c);
  VP_REACH("line");
}
/* contracts of the two ways to fit */
static int vp_lined, vp_squared; static spline_list_type vp_result;
spline_list_type *vp_line(curve_type c) { VP_ASSERT(c == top && c->length >= 2, "P19 lines need two points"); vp_lined++; return &vp_result; }
spline_list_type *vp_squares(curve_type c, fitting_opts_type *o, at_exception_type *e) { VP_ASSERT(c == top && o == &opt && c->length >= 4, "P19 splines need four points"); vp_squared++; return &vp_result; }
void h_curve(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); struct curve cv; curve_type c = &cv; spline_list_type *l;
  top = c; c->length = nd_u32(); c->cyclic = nd_bool();
  l = fit_curve(c, &opt, &e);
  VP_ASSERT((l == NULL) == (c->length < 2) && (l == NULL || l == &vp_result), "P19 only a curve of fewer than two points has no fit");
  VP_ASSERT(vp_lined == (c->length == 2 || c->length == 3) && vp_squared == (c->length >= 4), "P20 two or three points give a line, more a least squares fit");
  VP_ASSERT(vp_fatal == 0 && vp_warnings == (c->length < 2), "P19 a curve that cannot be fitted is warned about");
  VP_REACH("curve");
}
/* least squares with subdivision: callees by contract, any number of points */
static spline_type vp_sp; static float vp_err; static unsigned vp_worst; static bool vp_lin; static int vp_fits, vp_params; static vector_type *vp_mid; static unsigned vp_split;
void vp_tangent(curve_type c, bool start, bool cross, unsigned surround)
{
  vector_type **t = start ? &c->start_tangent : &c->end_tangent;
  VP_ASSERT(surround == opt.tangent_surround, "P20 tangents are found with the surround asked for");
  if (cross) {
    VP_ASSERT(!start && c != top && c->next && c->next->point_list == c->point_list + c->length - 1, "P20 the tangent at a subdivision looks at both sides");
    VP_ASSERT(!c->cyclic && !c->next->cyclic, "P20 the parts of a curve are not cyclic");
  } else VP_ASSERT(c == top, "P20 tangents at the ends look at the curve itself");
  if (!*t) *t = malloc(sizeof(vector_type));
  if (cross) vp_mid = *t;
}
void vp_param(curve_type c) { VP_ASSERT(c == top, "P20 the points of the curve get parameters"); vp_params++; }
spline_type vp_one(curve_type c, at_exception_type *e)
{
  VP_ASSERT(c == top && vp_params == 1 && c->start_tangent && c->end_tangent, "P20 the fit has tangents and parameters");
  vp_sp.v[0] = first; vp_sp.v[3] = last; vp_sp.v[1] = any(); vp_sp.v[2] = any(); vp_sp.degree = CUBICTYPE;
  return vp_sp;
}
float vp_error(curve_type c, spline_type s, unsigned *w, at_exception_type *e)
{
  VP_ASSERT(c == top && same(s.v[1], vp_sp.v[1]) && same(s.v[2], vp_sp.v[2]), "P20 the error is that of the fit");
  vp_err = nd_float(); vp_worst = nd_u32();
  VP_ASSUME(vp_err >= FLT_MIN && vp_err <= 1e30f && (vp_worst < n || vp_worst == n + 1));
  *w = vp_worst;
  return vp_err;
}
bool vp_linear(spline_type *s, curve_type c, fitting_opts_type *o) { VP_ASSERT(c == top && o == &opt && same(s->v[1], vp_sp.v[1]), "P20 the accepted fit is tested for straightness"); s->linearity = 7; vp_lin = nd_bool(); return vp_lin; }
static spline_type vp_part[2];
spline_list_type *vp_fit(curve_type c, fitting_opts_type *o, at_exception_type *e)
{
  spline_type s;
  VP_ASSERT(c != top && o == &opt && c->length >= 2 && c->length < n, "P19 a curve is subdivided into two shorter ones");
  if (vp_fits == 0) { VP_ASSERT(c->point_list == top->point_list, "P19 the left part begins where the curve begins"); vp_split = c->length - 1; VP_ASSERT(c->start_tangent == top->start_tangent && c->end_tangent == vp_mid, "P20 the left part has the tangents of the curve and the subdivision"); }
  else VP_ASSERT(c->point_list == top->point_list + vp_split && c->length == n - vp_split && c->end_tangent == top->end_tangent && c->start_tangent == vp_mid, "P19 the right part goes from the subdivision to the end, with its tangents");
  s.v[0] = c->point_list[0].coord; s.v[3] = c->point_list[c->length - 1].coord; s.v[1] = any(); s.v[2] = any(); s.degree = nd_bool() ? LINEARTYPE : CUBICTYPE; s.linearity = nd_float();
  vp_part[vp_fits++] = s;
  return new_spline_list_with_spline(s);
}
void h_squares(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); curve_type c = a_curve(4); spline_list_type *l; bool good;
  opt.error_threshold = nd_float(); opt.tangent_surround = nd_u32(); c->start_tangent = c->end_tangent = NULL; vector_type given; bool has = nd_bool(); if (has) c->start_tangent = &given; 
  VP_ASSUME(opt.error_threshold == opt.error_threshold);
  l = fit_with_least_squares(c, &opt, &e);
  VP_ASSERT(l && l->length >= 1, "P19 every curve of four points or more is fitted");
  VP_ASSERT(same(l->data[0].v[0], first) && same(l->data[l->length - 1].v[3], last), "P19 the fit leads from the first to the last point");
  good = !c->cyclic && (vp_err < opt.error_threshold || vp_worst >= n);
  VP_ASSERT(vp_fits == (good ? 0 : 2) && l->length == (good ? 1 : 2), "P20 a curve is subdivided exactly when the fit is not good enough or it is cyclic");
  if (good) VP_ASSERT(same(l->data[0].v[1], vp_sp.v[1]) && same(l->data[0].v[2], vp_sp.v[2]) && l->data[0].degree == (vp_lin ? LINEARTYPE : CUBICTYPE) && (!vp_lin || l->data[0].linearity == 7), "P20 an accepted fit is a line exactly when straight enough");
  else {
    VP_ASSERT(same(l->data[0].v[3], l->data[1].v[0]), "P19 the parts of a subdivided curve join");
    VP_ASSERT(same(l->data[0].v[1], vp_part[0].v[1]) && same(l->data[1].v[1], vp_part[1].v[1]) && l->data[0].degree == vp_part[0].degree && l->data[1].degree == vp_part[1].degree, "P19 the parts of a subdivided curve are kept in order");
    VP_ASSERT(vp_worst == 0 || vp_worst >= n - 1 || vp_split == vp_worst, "P20 a curve is subdivided at its worst point");
  }
  VP_ASSERT(vp_fatal == 0, "P19 fitting raises no error");
  if (!has) free(c->start_tangent); free(c->end_tangent); free(l->data); free(l); free(c->point_list); free(c);
  if (good) VP_REACH("accepted"); else VP_REACH("subdivided");
}
/* the error: the largest distance, at the point where it is */
#define NE 6
static float vp_d[NE]; static unsigned vp_k;
at_real_coord vp_eval(spline_type s, float t) { at_real_coord c; VP_ASSERT(t == (float)vp_k, "P20 the fit is compared at the parameter of each point"); c.x = 1000 + vp_k; return c; }
float vp_dist(at_real_coord a, at_real_coord b) { VP_ASSERT(a.x == (float)vp_k && b.x == 1000.0f + vp_k, "P20 each point is compared with the fit"); return vp_d[vp_k++]; }
void h_error(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); struct curve cv; point_type p[NE]; spline_type s; unsigned i, w, k = nd_u8(); float r;
  cv.length = nd_u8(); VP_ASSUME(cv.length >= 4 && cv.length <= NE && k < cv.length);
  cv.point_list = p;
  for (i = 0; i < NE; i++) { p[i].coord.x = i; p[i].t = i; vp_d[i] = nd_float(); VP_ASSUME(vp_d[i] >= 0 && vp_d[i] < 1e30f); }
  r = find_error(&cv, s, &w, &e);
  VP_ASSERT(vp_k == cv.length, "P20 every point is compared with the fit");
  VP_ASSERT(r >= vp_d[k], "P20 no point is farther off than the error says");
  VP_ASSERT(w == cv.length + 1 ? r == FLT_MIN && vp_d[k] < FLT_MIN : w < cv.length && vp_d[w] == r, "P20 the worst point is where the error is largest, if there is any");
  VP_REACH("error");
}
/* lines among curves */
void h_lines(void)
{
  spline_type d[4], o[4]; spline_list_type l; unsigned i, k = nd_u8(); bool cubic = false;
  l.data = d; l.length = nd_u8(); VP_ASSUME(l.length >= 1 && l.length <= 4 && k < l.length);
  opt.line_reversion_threshold = nd_float();
  for (i = 0; i < 4; i++) { d[i].v[0] = any(); d[i].v[1] = any(); d[i].v[2] = any(); d[i].v[3] = any(); d[i].degree = nd_bool() ? LINEARTYPE : CUBICTYPE; d[i].linearity = nd_float(); o[i] = d[i]; if (i < l.length && d[i].degree == CUBICTYPE) cubic = true; }
  change_bad_lines(&l, &opt);
  VP_ASSERT(l.length >= 1 && l.data == d && same(d[k].v[0], o[k].v[0]) && same(d[k].v[1], o[k].v[1]) && same(d[k].v[2], o[k].v[2]) && same(d[k].v[3], o[k].v[3]), "P19 turning lines back to curves moves nothing");
  VP_ASSERT(d[k].degree == (o[k].degree == LINEARTYPE && cubic && o[k].linearity > opt.line_reversion_threshold ? CUBICTYPE : o[k].degree), "P20 a line among curves stays one only when straight enough");
  VP_REACH("lines");
}
/* one list of curves: fit in order, a cyclic curve closed first */
static struct curve vp_cv[3]; static point_type vp_pt[3][8]; static int vp_knee[3], vp_filt[3]; static unsigned vp_nc, vp_done;
static bool vp_cw, vp_null;
void vp_knees(curve_type c, bool cw) { int i = c - vp_cv; VP_ASSERT(cw == vp_cw && !vp_filt[i], "P20 knees are removed before smoothing, in the direction of the outline"); vp_knee[i]++; }
void vp_filter(curve_type c, fitting_opts_type *o) { int i = c - vp_cv; VP_ASSERT(o == &opt && vp_knee[i] == 1, "P20 every curve is smoothed once"); vp_filt[i]++; }
void vp_append(curve_type c, at_real_coord p) { VP_ASSERT(c == vp_cv && c->cyclic && vp_filt[0] == 1, "P19 a curve without corners is closed after smoothing"); c->point_list[c->length++].coord = p; }
spline_list_type *vp_fit2(curve_type c, fitting_opts_type *o, at_exception_type *e)
{
  spline_type s; unsigned i;
  VP_ASSERT(c == &vp_cv[vp_done], "P19 the curves are fitted in order");
  for (i = 0; i < vp_nc; i++) VP_ASSERT(vp_filt[i] == 1, "P20 all curves are smoothed before the first is fitted");
  s.v[0] = c->point_list[0].coord; s.v[3] = c->point_list[c->length - 1].coord; s.v[1].x = vp_done; s.degree = LINEARTYPE; s.linearity = 0;
  vp_done++;
  return new_spline_list_with_spline(s);
}
void vp_bad(spline_list_type *l, fitting_opts_type *o) { VP_ASSERT(o == &opt, "P20 lines are checked with the options given"); }
void h_list(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); curve_list_type cl; curve_type p[3]; unsigned i; spline_list_type l; bool cyc = nd_bool();
  vp_nc = nd_u8(); VP_ASSUME(vp_nc >= 1 && vp_nc <= 3 && (!cyc || vp_nc == 1));
  cl.data = p; cl.length = vp_nc; cl.clockwise = vp_cw = nd_bool(); cl.open = nd_bool(); if (cyc) VP_ASSUME(!cl.open);
  for (i = 0; i < 3; i++) { p[i] = &vp_cv[i]; vp_cv[i].point_list = vp_pt[i]; vp_cv[i].length = 2; vp_cv[i].cyclic = cyc; vp_pt[i][0].coord = any(); vp_pt[i][1].coord = any(); }
  for (i = 0; i < 3; i++) if (i + 1 < vp_nc) vp_pt[i + 1][0].coord = vp_pt[i][1].coord;
  if (!cl.open && !cyc) vp_pt[vp_nc - 1][1].coord = vp_pt[0][0].coord;
  l = fit_curve_list(cl, &opt, NULL, &e);
  VP_ASSERT(l.length == vp_nc && vp_done == vp_nc && l.open == cl.open, "P19 every curve between corners is fitted");
  for (i = 0; i < 3; i++) if (i < vp_nc) VP_ASSERT(l.data[i].v[1].x == i, "P19 the splines are kept in order");
  for (i = 1; i < 3; i++) if (i < vp_nc) VP_ASSERT(same(l.data[i].v[0], l.data[i - 1].v[3]), "P19 every spline starts exactly where the one before ends");
  if (!cl.open) VP_ASSERT(same(l.data[0].v[0], l.data[vp_nc - 1].v[3]), "P19 a closed path ends exactly where it starts");
  VP_ASSERT(vp_fatal == 0 && vp_warnings == 0, "P19 fitting raises no error");
  if (cyc) VP_REACH("cyclic"); else VP_REACH("corners");
  free(l.data);
}
/* all outlines: one path each, with color, direction and kind */
static curve_list_type vp_lists[3]; static unsigned vp_nl, vp_fitted, vp_freed, vp_asked, vp_stop; static at_distance_map vp_map; static spline_type vp_any; static int vp_ptag, vp_ctag; static pixel_outline_type vp_out[3];
static float vp_lastp;
curve_list_array_type vp_splitat(pixel_outline_list_type l, fitting_opts_type *o, at_exception_type *e) { curve_list_array_type a; VP_ASSERT(o == &opt && l.data == vp_out && l.length == vp_nl, "P19 all outlines are split"); a.data = vp_lists; a.length = l.length; return a; }
spline_list_type vp_fitlist(curve_list_type c, fitting_opts_type *o, at_distance_map *d, at_exception_type *e) { spline_list_type l; VP_ASSERT(o == &opt && d == &vp_map && c.length == vp_lists[vp_fitted].length && c.clockwise == vp_lists[vp_fitted].clockwise, "P19 the outlines are fitted in order"); l.length = 100 + vp_fitted; l.data = &vp_any; l.open = c.open; vp_fitted++; return l; }
void vp_freecurves(curve_list_array_type *a, at_progress_func f, void *d) { VP_ASSERT(a->data == vp_lists, "P19 the curves are freed"); vp_freed++; }
static void vp_progress(float p, void *d) { VP_ASSERT(d == &vp_ptag && p >= vp_lastp && p >= 0.333f && p <= 0.667f, "P19 progress grows and goes to the caller with the caller's data"); vp_lastp = p; }
static bool vp_cancel(void *d) { VP_ASSERT(d == &vp_ctag, "P19 cancellation is asked with the caller's data"); return ++vp_asked == vp_stop; }
void h_fitted(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); pixel_outline_list_type ol; spline_list_array_type r; unsigned i; at_color bg = { nd_u8(), nd_u8(), nd_u8() }; bool hasbg = nd_bool(); vp_u16 w = nd_u16(), h = nd_u16(); bool quiet = nd_bool();
  vp_nl = nd_u8(); VP_ASSUME(vp_nl <= 3); vp_stop = nd_u8();
  for (i = 0; i < 3; i++) { vp_out[i].color.r = nd_u8(); vp_out[i].color.g = nd_u8(); vp_out[i].color.b = nd_u8(); vp_lists[i].length = 1 + i; vp_lists[i].clockwise = nd_bool(); vp_lists[i].open = nd_bool(); }
  ol.data = vp_out; ol.length = vp_nl; opt.background_color = hasbg ? &bg : NULL; opt.centerline = nd_bool(); opt.preserve_width = nd_bool(); opt.width_weight_factor = nd_float();
  r = fitted_splines(ol, &opt, &vp_map, w, h, &e, quiet ? NULL : vp_progress, &vp_ptag, quiet ? NULL : vp_cancel, &vp_ctag);
  VP_ASSERT(r.width == w && r.height == h && r.centerline == opt.centerline && r.preserve_width == opt.preserve_width && VP_FEQ(r.width_weight_factor, opt.width_weight_factor), "P19 the drawing carries the size and the settings of the trace");
  VP_ASSERT(!hasbg == !r.background_color && (!hasbg || r.background_color != &bg && r.background_color->r == bg.r && r.background_color->g == bg.g && r.background_color->b == bg.b), "P19 the drawing has its own copy of the background color");
  VP_ASSERT(vp_freed == 1, "P19 the curves are freed");
  VP_ASSERT(r.length == (!quiet && vp_stop >= 1 && vp_stop <= vp_nl ? vp_stop - 1 : vp_nl), "P19 every outline gives exactly one path (unless cancelled)");
  for (i = 0; i < 3; i++) if (i < r.length) VP_ASSERT(r.data[i].length == 100 + i && r.data[i].data == &vp_any && r.data[i].color.r == vp_out[i].color.r && r.data[i].color.g == vp_out[i].color.g && r.data[i].color.b == vp_out[i].color.b && r.data[i].clockwise == vp_lists[i].clockwise && r.data[i].open == vp_lists[i].open, "P19 a path has the color, direction and kind of its outline");
  free(r.data); if (r.background_color) free(r.background_color);
  VP_REACH("fitted");
}
/* splitting at corners: the corners by contract (increasing indices), curves recorded */
#define NP 6
static unsigned vp_ci[3], vp_ncorner, vp_given; static unsigned vp_len4[4], vp_wj, vp_wi; static int vp_seen;
index_list_type vp_corners(pixel_outline_type o, fitting_opts_type *f, at_exception_type *e) { index_list_type l; unsigned i; vp_given = 1; l.length = vp_ncorner; l.data = NULL; if (l.length) { l.data = malloc(3 * sizeof(unsigned)); for (i = 0; i < 3; i++) l.data[i] = vp_ci[i]; } return l; }
static struct curve vp_pool[4]; static unsigned vp_np, vp_nadd; static curve_type vp_cl[4]; static curve_list_type vp_cla[1];
curve_type vp_newcurve(void) { curve_type c = &vp_pool[vp_np]; VP_ASSERT(vp_np < 4, "P19 there are not more curves than corners"); vp_np++; c->point_list = NULL; c->length = 0; c->cyclic = false; c->start_tangent = c->end_tangent = NULL; c->previous = c->next = NULL; return c; }
void vp_addcurve(curve_list_type *l, curve_type c) { VP_ASSERT(l->length == vp_nadd && vp_nadd < 4, "P19 there are not more curves than corners"); vp_cl[vp_nadd++] = c; l->data = vp_cl; l->length = vp_nadd; }
void vp_addlist(curve_list_array_type *a, curve_list_type l) { VP_ASSERT(a->length == 0, "P19 every outline gives one list of curves"); vp_cla[0] = l; a->data = vp_cla; a->length = 1; }
void vp_pix(curve_type c, at_coord p) { unsigned i = c == &vp_pool[0] ? 0 : c == &vp_pool[1] ? 1 : c == &vp_pool[2] ? 2 : 3; if (i == vp_wi && vp_len4[i] == vp_wj) vp_seen = p.x; vp_len4[i]++; }
void h_split(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); pixel_outline_type o; at_coord d[NP]; pixel_outline_list_type ol; curve_list_array_type a; unsigned i, j, nn, cs; curve_list_type *l;
  o.data = d; nn = o.length = nd_u8(); VP_ASSUME(nn >= 2 && nn <= NP); o.open = nd_bool(); o.clockwise = nd_bool(); ol.data = &o; ol.length = 1;
  for (i = 0; i < NP; i++) d[i].x = i;
  vp_ncorner = nd_u8(); VP_ASSUME(vp_ncorner <= 3); for (i = 0; i < 3; i++) { vp_ci[i] = nd_u8(); VP_ASSUME(vp_ci[i] < nn && (i == 0 || i >= vp_ncorner || vp_ci[i] > vp_ci[i - 1])); }
  if (o.open && vp_ncorner) VP_ASSUME(vp_ci[0] == 0);
  cs = opt.corner_surround = nd_u8(); vp_wi = nd_u8(); vp_wj = nd_u8(); VP_ASSUME(vp_wi < 3 && vp_wj < 2 * NP);
  a = split_at_corners(ol, &opt, &e);
  if (!vp_given) vp_ncorner = 0;
  VP_ASSERT(opt.corner_surround == cs, "P19 splitting leaves the options alone");
  VP_ASSERT(vp_given || nn <= cs * 2 + 2, "P20 corners are looked for when the outline is long enough");
  VP_ASSERT(a.length == 1, "P19 every outline gives one list of curves");
  l = &a.data[0];
  VP_ASSERT(l->length == (vp_ncorner ? vp_ncorner : 1) && l->open == o.open && l->clockwise == o.clockwise, "P19 there is one curve from each corner to the next");
  i = nd_u8(); j = vp_wj; VP_ASSUME(i < l->length && i < 3);
  { unsigned from = vp_ncorner ? vp_ci[i] : 0, to = vp_ncorner ? i + 1 < vp_ncorner ? vp_ci[i + 1] : o.open ? nn - 1 : nn + vp_ci[0] : nn - 1;
    VP_ASSUME(l->data[i] == &vp_pool[vp_wi]);
    VP_ASSERT(vp_len4[vp_wi] == to - from + 1, "P19 a curve has the pixels from its corner to the next, both included");
    if (j < vp_len4[vp_wi]) VP_ASSERT(vp_seen == (int)((from + j) % nn), "P19 a curve has the pixels from its corner to the next, both included");
    VP_ASSERT(l->data[i]->cyclic == (!vp_ncorner && !o.open), "P19 a curve is cyclic exactly when its outline is closed without corners");
  }
  if (vp_ncorner) VP_REACH("corners"); else VP_REACH("none");
}
/* neighboring corners */
static unsigned vp_il[6], vp_nil;
void vp_addindex(index_list_type *l, unsigned x) { VP_ASSERT(vp_nil < 6, "P20 no corner is invented"); vp_il[vp_nil] = x; l->data = vp_il; l->length = ++vp_nil; }
void vp_freeindex(index_list_type *l) { }
void h_adjacent(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); unsigned d[4], o[4], m = nd_u8(), i, k = nd_u8(), lasti = nd_u8(); index_list_type l; bool rm = nd_bool(), found = false, prev = false;
  VP_ASSUME(m >= 1 && m <= 4 && k < m);
  for (i = 0; i < 4; i++) { d[i] = o[i] = nd_u8(); if (i < m) VP_ASSUME(d[i] <= lasti); }
  l.data = d; l.length = m;
  remove_adjacent_corners(&l, lasti, rm, &e);
  VP_ASSERT(l.length >= 1 && l.length <= m, "P20 of some corners at least one remains");
  for (i = 1; i < 4; i++) if (i < l.length) VP_ASSERT(l.data[i - 1] <= l.data[i], "P20 corners are in the order of the outline");
  for (i = 0; i < 4; i++) if (i < l.length && l.data[i] == o[k]) found = true;
  { bool greatest = true; for (i = 0; i < 4; i++) if (i < m && o[i] > o[k]) greatest = false; if (!rm && !greatest) VP_ASSERT(found, "P20 corners are kept unless adjacent corners are to be removed"); }
  VP_REACH("adjacent");
}
/* knees */
static int vp_kp[8][2]; static unsigned vp_nk;
void vp_keep(curve_type c, at_coord p) { VP_ASSERT(vp_nk < 8, "P20 removing knees adds no points"); vp_kp[vp_nk][0] = p.x; vp_kp[vp_nk][1] = p.y; vp_nk++; c->length = vp_nk; }
void h_knees(void)
{
  struct curve *c = malloc(sizeof *c); point_type *p = malloc(5 * sizeof *p); unsigned m = nd_u8(), i, j; bool cw = nd_bool(), cyc = nd_bool(); int xy[5][2];
  VP_ASSUME(m >= 2 && m <= 5);
  for (i = 0; i < 5; i++) { xy[i][0] = nd_u8(); xy[i][1] = nd_u8(); p[i].coord.x = xy[i][0]; p[i].coord.y = xy[i][1]; }
  c->point_list = p; c->length = m; c->cyclic = cyc; c->start_tangent = c->end_tangent = NULL; c->previous = c->next = NULL;
  remove_knee_points(c, cw);
  VP_ASSERT(c->length == vp_nk && vp_nk <= m && c->cyclic == cyc, "P20 removing knees adds no points");
  for (i = j = 0; i < 5; i++) if (i < m && j < vp_nk && vp_kp[j][0] == xy[i][0] && vp_kp[j][1] == xy[i][1]) j++;
  VP_ASSERT(j == vp_nk, "P20 the points that remain keep their order");
  if (!cyc) VP_ASSERT(vp_nk >= 2 && vp_kp[0][0] == xy[0][0] && vp_kp[0][1] == xy[0][1] && vp_kp[vp_nk - 1][0] == xy[m - 1][0] && vp_kp[vp_nk - 1][1] == xy[m - 1][1], "P19 corners are never removed as knees");
  VP_REACH("knees");
}
/* smoothing */
static at_real_coord vp_fp[8]; static unsigned vp_nf;
void vp_smooth(curve_type c, at_real_coord p) { VP_ASSERT(vp_nf < 8, "P20 smoothing adds no points"); vp_fp[vp_nf++] = p; if (!c->point_list) c->point_list = malloc(8 * sizeof(point_type)); c->point_list[c->length++].coord = p; }
void h_filter(void)
{
  struct curve *c = malloc(sizeof *c); point_type *p = malloc(6 * sizeof *p); unsigned m = nd_u8(), i, k = nd_u8(); bool cyc = nd_bool(); at_real_coord o[6];
  VP_ASSUME(m >= 2 && m <= 6 && k < m);
  for (i = 0; i < 6; i++) { o[i].x = nd_u8(); o[i].y = nd_u8(); o[i].z = 0; p[i].coord = o[i]; }
  c->point_list = p; c->length = m; c->cyclic = cyc; c->start_tangent = c->end_tangent = NULL; c->previous = c->next = NULL;
  opt.filter_iterations = 1;
  filter(c, &opt);
  VP_ASSERT(c->length == m && c->cyclic == cyc, "P20 smoothing keeps the number of points");
  if (!cyc) VP_ASSERT(same(c->point_list[0].coord, o[0]) && same(c->point_list[m - 1].coord, o[m - 1]), "P19 smoothing never moves corners");
  if (m < 5) VP_ASSERT(same(c->point_list[k].coord, o[k]), "P20 fewer than five points are not smoothed");
  VP_REACH("filter");
}
/* one spline through the ends: vectors by contract (any value) */
static vector_type anyv(void) { vector_type v; v.dx = nd_float(); v.dy = nd_float(); v.dz = nd_float(); return v; }
vector_type vp_vmul(const vector_type v, const float r) { return anyv(); }
vector_type vp_vadd(const vector_type a, const vector_type b) { return anyv(); }
float vp_vdot(const vector_type a, const vector_type b) { return nd_float(); }
void h_one(void)
{
  at_exception_type e = at_exception_new(vp_msg, NULL); struct curve cv; point_type p[5]; vector_type t1, t2; unsigned i; spline_type s;
  cv.length = nd_u8(); VP_ASSUME(cv.length >= 4 && cv.length <= 5); cv.point_list = p; cv.start_tangent = &t1; cv.end_tangent = &t2;
  for (i = 0; i < 5; i++) { p[i].coord = any(); p[i].t = nd_float(); }
  s = fit_one_spline(&cv, &e);
  VP_ASSERT(same(s.v[0], p[0].coord) && same(s.v[3], p[cv.length - 1].coord) && s.degree == CUBICTYPE, "P19 the fitted spline leads from the first to the last point");
  VP_REACH("one");
}
/* a spline at its ends */
void h_ends(void)
{
  spline_type s; at_real_coord a, b; unsigned i;
  for (i = 0; i < 4; i++) { s.v[i] = any(); VP_ASSUME(fabs(s.v[i].x) < 1e30 && fabs(s.v[i].y) < 1e30 && fabs(s.v[i].z) < 1e30); }
  s.degree = CUBICTYPE;
  a = evaluate_spline(s, 0); b = evaluate_spline(s, 1);
  VP_ASSERT(a.x == s.v[0].x && a.y == s.v[0].y && a.z == s.v[0].z, "P20 a spline begins at its first point");
  VP_ASSERT(b.x == s.v[3].x && b.y == s.v[3].y && b.z == s.v[3].z, "P20 a spline ends at its last point");
  VP_REACH("ends");
}
