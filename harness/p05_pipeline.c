/* P05: at_splines_new_full.  Real code: src/autotrace.c, src/color.c, src/exception.c, src/spline.c.
 * The stages are replaced by their contracts: each may raise a fatal error (then it has released
 * what it allocated), each polls cancellation and progress as it likes, and what it returns is owned by the caller. */
#include "vp.h"
#include "autotrace.h"
#include "autotrace.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "despeckle.h"
#include "quantize.h"
#include "image-proc.h"
#include "thin-image.h"
#include "pxl-outline.h"

static int tag_msg, tag_prog, tag_cancel;
static int n_fatal_raised, n_msgs, n_fatal_msgs;
static bool canceled, cancel_seen;
static bool has_prog, has_cancel, has_msg;
static float last_prog;
static int n_prog;
static bool d_despeckle, d_quant, d_dist, d_thin, d_pixels, d_fit;
static int live_quant, live_dist, live_pixels, live_fit;
static at_bitmap bm;
static at_fitting_opts_type opts;
static at_color bg;
static at_spline_list_array_type fitted;
static at_distance_map the_map;
static float *map_cell;
static at_coord *pix_cell;
static unsigned short W, H;

static void msg(const char *m, at_msg_type t, void *d)
{
  VP_ASSERT(d == &tag_msg, "P05 messages go to the caller with the caller's data");
  n_msgs++;
  if (t == AT_MSG_FATAL) n_fatal_msgs++;
}
static void prog(float p, void *d)
{
  VP_ASSERT(d == &tag_prog, "P05 progress goes to the caller with the caller's data");
  VP_ASSERT(p >= 0 && p <= 1, "P05 reported progress lies between zero and one");
  last_prog = p; n_prog++;
}
static bool cancelf(void *d)
{
  VP_ASSERT(d == &tag_cancel, "P05 cancellation is asked with the caller's data");
  if (!canceled) canceled = nd_bool();
  if (canceled) cancel_seen = true;
  return canceled;
}

static void ready(void)
{
  VP_ASSERT(!n_fatal_raised, "P05 no stage starts after a fatal error");
}
static bool stage_end(at_exception_type *exp)
{
  VP_ASSERT(exp != NULL, "P05 every stage can report errors");
  if (nd_bool()) at_exception_warning(exp, "w");
  if (nd_bool()) { n_fatal_raised++; at_exception_fatal(exp, "f"); return true; }
  return false;
}
static void poll(at_progress_func p, void *pd, at_testcancel_func c, void *cd)
{
  VP_ASSERT(p == (has_prog ? prog : NULL) && c == (has_cancel ? cancelf : NULL), "P05 stages get the caller's callbacks");
  VP_ASSERT((!has_prog || pd == &tag_prog) && (!has_cancel || cd == &tag_cancel), "P05 stages get the caller's callback data");
}

void despeckle(at_bitmap *b, int level, float tight, float noise, at_exception_type *exp)
{
  ready();
  VP_ASSERT(b == &bm && !d_despeckle && !d_thin && !d_pixels, "P05 despeckling happens once, on the image, before tracing");
  VP_ASSERT((unsigned)level == opts.despeckle_level && VP_FEQ(tight, opts.despeckle_tightness) && VP_FEQ(noise, opts.noise_removal), "P05 despeckling uses the requested options");
  d_despeckle = true;
  stage_end(exp);
}
static QuantizeObj *the_quant;
void quantize(at_bitmap *b, long n, const at_color *bgc, QuantizeObj **q, at_exception_type *exp)
{
  ready();
  VP_ASSERT(b == &bm && !d_quant && !d_thin && !d_pixels, "P05 color reduction happens once, on the image, before tracing");
  VP_ASSERT(n == (long)opts.color_count && bgc == opts.background_color, "P05 color reduction uses the requested options");
  d_quant = true;
  if (q && *q == NULL) {
    /* on a fatal error the stage may or may not hand over an object */
    if (!stage_end(exp) || nd_bool()) {
      /* opaque to the caller: a small block stands for it */
      the_quant = malloc(1);
      *q = the_quant;
      live_quant++;
    }
  } else
    stage_end(exp);
}
void quantize_object_free(QuantizeObj *q)
{
  VP_ASSERT(q == the_quant && live_quant == 1, "P05 the color table is released once");
  live_quant--;
  free(q);
}
at_distance_map new_distance_map(at_bitmap *b, unsigned char target, bool padded, at_exception_type *exp)
{
  at_distance_map m;
  ready();
  VP_ASSERT(b == &bm && target == 255 && padded && !d_dist && !d_thin && !d_pixels, "P05 line width is measured once, before thinning");
  d_dist = true;
  m.height = H; m.width = W; m.d = NULL; m.weight = NULL;
  if (stage_end(exp)) return m;
  map_cell = malloc(sizeof(float));
  m.d = (float **)map_cell;
  live_dist++;
  return m;
}
void free_distance_map(at_distance_map *m)
{
  VP_ASSERT(live_dist == 1 && m->d == (float **)map_cell, "P05 the distance map is released once");
  live_dist--;
  free(m->d);
  m->d = NULL;
}
void thin_image(at_bitmap *b, const at_color *bgc, at_exception_type *exp)
{
  ready();
  VP_ASSERT(b == &bm && bgc == opts.background_color && !d_thin && !d_pixels, "P05 thinning happens once, before tracing");
  d_thin = true;
  stage_end(exp);
}
static pixel_outline_list_type pixels_of(at_exception_type *exp, at_testcancel_func c)
{
  pixel_outline_list_type l;
  d_pixels = true;
  l.data = NULL; l.length = 0;
  if (has_prog && nd_bool()) prog(nd_bool() ? 0 : .5f, &tag_prog);
  if (stage_end(exp)) return l;
  if (c && nd_bool() && c(&tag_cancel)) return l;
  pix_cell = malloc(sizeof(at_coord));
  l.data = (pixel_outline_type *)pix_cell;
  l.length = nd_u32();
  live_pixels++;
  return l;
}
pixel_outline_list_type find_outline_pixels(at_bitmap *b, at_color *bgc, at_progress_func p, void *pd, at_testcancel_func c, void *cd, at_exception_type *exp)
{
  ready(); poll(p, pd, c, cd);
  VP_ASSERT(b == &bm && bgc == opts.background_color && !opts.centerline && !d_pixels, "P05 outlines are found once, only without centerline");
  return pixels_of(exp, c);
}
pixel_outline_list_type find_centerline_pixels(at_bitmap *b, at_color bgc, at_progress_func p, void *pd, at_testcancel_func c, void *cd, at_exception_type *exp)
{
  ready(); poll(p, pd, c, cd);
  VP_ASSERT(b == &bm && opts.centerline && d_thin && !d_pixels, "P05 centerlines are found once, after thinning");
  if (opts.background_color)
    VP_ASSERT(bgc.r == bg.r && bgc.g == bg.g && bgc.b == bg.b, "P05 centerlines use the requested background");
  else
    VP_ASSERT(bgc.r == 255 && bgc.g == 255 && bgc.b == 255, "P05 centerlines default to a white background");
  return pixels_of(exp, c);
}
void free_pixel_outline_list(pixel_outline_list_type *l)
{
  if (l->data) {
    VP_ASSERT(live_pixels == 1 && l->data == (pixel_outline_type *)pix_cell, "P05 the outlines are released once");
    live_pixels--;
    free(l->data);
  }
  l->data = NULL; l->length = 0;
}
spline_list_array_type fitted_splines(pixel_outline_list_type l, fitting_opts_type *o, at_distance_map *d, unsigned short w, unsigned short h,
  at_exception_type *exp, at_progress_func p, void *pd, at_testcancel_func c, void *cd)
{
  spline_list_array_type r;
  ready(); poll(p, pd, c, cd);
  VP_ASSERT(o == &opts && w == W && h == H && !d_fit, "P05 fitting happens once, with the requested options and the image size");
  VP_ASSERT(live_pixels == 0 ? l.length == 0 : l.data == (pixel_outline_type *)pix_cell, "P05 fitting works on the outlines found");
  VP_ASSERT((d != NULL) == (opts.centerline && opts.preserve_width), "P05 fitting gets the line widths exactly when they are to be preserved");
  VP_ASSERT(d == NULL || (live_dist == 1 && d->d == (float **)map_cell), "P05 fitting gets the distance map of the unthinned image");
  d_fit = true;
  r.data = NULL; r.length = 0;
  r.width = w; r.height = h; r.background_color = NULL;
  r.centerline = o->centerline; r.preserve_width = o->preserve_width; r.width_weight_factor = o->width_weight_factor;
  if (has_prog && nd_bool()) prog(nd_bool() ? .5f : 1.0f, &tag_prog);
  if (stage_end(exp)) return r;
  if (c && nd_bool()) c(&tag_cancel);
  if (o->background_color) r.background_color = at_color_copy(o->background_color);
  if (nd_bool()) {
    r.data = malloc(sizeof(spline_list_type));
    r.length = 1;
    SPLINE_LIST_LENGTH(r.data[0]) = 1;
    SPLINE_LIST_DATA(r.data[0]) = malloc(sizeof(spline_type));
    r.data[0].clockwise = nd_bool(); r.data[0].open = nd_bool();
  }
  fitted = r;
  return r;
}

static void mk_opts(void)
{
  opts.color_count = nd_u32(); opts.despeckle_level = nd_u32();
  opts.despeckle_tightness = nd_float(); opts.noise_removal = nd_float(); opts.width_weight_factor = nd_float();
  opts.centerline = nd_bool(); opts.preserve_width = nd_bool();
  bg.r = nd_u8(); bg.g = nd_u8(); bg.b = nd_u8();
  opts.background_color = nd_bool() ? &bg : NULL;
}
static void finish(at_splines_type *s)
{
  VP_ASSERT(n_fatal_msgs == (has_msg ? n_fatal_raised : 0), "P05 each fatal error reaches the caller exactly once");
  VP_ASSERT((s == NULL) == (n_fatal_raised > 0 || cancel_seen), "P05 the result is missing exactly after a fatal error or a cancellation");
  VP_ASSERT(live_quant == 0 && live_dist == 0 && live_pixels == 0, "P05 every intermediate result is released");
  if (s) {
    VP_ASSERT(d_despeckle == (opts.despeckle_level > 0), "P05 despeckling happens exactly when asked for");
    VP_ASSERT(d_quant == (opts.color_count > 0), "P05 color reduction happens exactly when asked for");
    VP_ASSERT(d_thin == opts.centerline, "P05 thinning happens exactly for centerlines");
    VP_ASSERT(d_dist == (opts.centerline && opts.preserve_width), "P05 line width is measured exactly when asked for");
    VP_ASSERT(d_pixels && d_fit, "P05 a result comes from tracing and fitting");
    VP_ASSERT(s->data == fitted.data && s->length == fitted.length && s->width == W && s->height == H && s->background_color == fitted.background_color
              && s->centerline == fitted.centerline && s->preserve_width == fitted.preserve_width && VP_FEQ(s->width_weight_factor, fitted.width_weight_factor), "P05 the result is what fitting produced");
    VP_ASSERT(!has_prog || (n_prog > 0 && last_prog == 1.0f), "P05 completion is reported as progress one");
    VP_REACH("result");
    at_splines_free(s);
  } else
    VP_REACH("no result");
}

void h_full(void)
{
  W = nd_u16(); H = nd_u16();
  bm.width = W; bm.height = H; bm.np = nd_bool() ? 3 : 1; bm.bitmap = NULL;
  mk_opts();
  at_fitting_opts_type snap = opts;
  has_prog = nd_bool(); has_cancel = nd_bool(); has_msg = nd_bool();
  at_splines_type *s = at_splines_new_full(&bm, &opts, has_msg ? msg : NULL, has_msg ? &tag_msg : NULL,
    has_prog ? prog : NULL, has_prog ? &tag_prog : NULL, has_cancel ? cancelf : NULL, has_cancel ? &tag_cancel : NULL);
  VP_ASSERT(opts.color_count == snap.color_count && opts.despeckle_level == snap.despeckle_level && opts.centerline == snap.centerline
            && opts.preserve_width == snap.preserve_width && opts.background_color == snap.background_color, "P05 tracing leaves the caller's options alone");
  finish(s);
}

void h_plain(void)
{
  W = nd_u16(); H = nd_u16();
  bm.width = W; bm.height = H; bm.np = nd_bool() ? 3 : 1; bm.bitmap = NULL;
  mk_opts();
  has_msg = nd_bool();
  finish(at_splines_new(&bm, &opts, has_msg ? msg : NULL, has_msg ? &tag_msg : NULL));
}
