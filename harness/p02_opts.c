/* P02: option records.  Real code: src/autotrace.c, src/color.c, src/fit.c (new_fitting_opts) */
#include "vp.h"
#include "autotrace.h"
#include "autotrace.c"
#include "color.c"

/* new_fitting_opts is linked from src/fit.c */
static at_fitting_opts_type any_fitting(at_color *bg)
{
  at_fitting_opts_type o;
  o.background_color = bg;
  o.charcode = nd_u32();
  o.color_count = nd_u32();
  o.corner_always_threshold = nd_float();
  o.corner_surround = nd_u32();
  o.corner_threshold = nd_float();
  o.error_threshold = nd_float();
  o.filter_iterations = nd_u32();
  o.line_reversion_threshold = nd_float();
  o.line_threshold = nd_float();
  o.remove_adjacent_corners = nd_bool();
  o.remove_knees = nd_bool();
  o.tangent_surround = nd_u32();
  o.despeckle_level = nd_u32();
  o.despeckle_tightness = nd_float();
  o.noise_removal = nd_float();
  o.centerline = nd_bool();
  o.preserve_width = nd_bool();
  o.width_weight_factor = nd_float();
  return o;
}

static bool same_fitting(const at_fitting_opts_type *a, const at_fitting_opts_type *b)
{
  return a->charcode == b->charcode && a->color_count == b->color_count
    && VP_FEQ(a->corner_always_threshold, b->corner_always_threshold) && a->corner_surround == b->corner_surround
    && VP_FEQ(a->corner_threshold, b->corner_threshold) && VP_FEQ(a->error_threshold, b->error_threshold)
    && a->filter_iterations == b->filter_iterations && VP_FEQ(a->line_reversion_threshold, b->line_reversion_threshold)
    && VP_FEQ(a->line_threshold, b->line_threshold) && a->remove_adjacent_corners == b->remove_adjacent_corners
    && a->remove_knees == b->remove_knees && a->tangent_surround == b->tangent_surround
    && a->despeckle_level == b->despeckle_level && VP_FEQ(a->despeckle_tightness, b->despeckle_tightness)
    && VP_FEQ(a->noise_removal, b->noise_removal) && a->centerline == b->centerline
    && a->preserve_width == b->preserve_width && VP_FEQ(a->width_weight_factor, b->width_weight_factor);
}

static at_color *any_color(at_color *keep)
{
  at_color *c = malloc(sizeof *c);
  c->r = nd_u8(); c->g = nd_u8(); c->b = nd_u8();
  *keep = *c;
  return c;
}

void h_fitting_copy(void)
{
  at_color keep;
  bool has = nd_bool();
  at_color *bg = has ? any_color(&keep) : NULL;
  at_fitting_opts_type *o = malloc(sizeof *o), snap, *c;
  *o = snap = any_fitting(bg);
  c = at_fitting_opts_copy(o);
  VP_ASSERT(c != NULL && c != o, "P02 a copy of fitting options is a new record");
  VP_ASSERT(same_fitting(c, &snap), "P02 a copy of fitting options has every value of the original");
  VP_ASSERT(same_fitting(o, &snap) && o->background_color == bg, "P02 copying fitting options leaves the original alone");
  if (has) {
    VP_ASSERT(c->background_color != NULL && c->background_color != bg, "P02 the copied background color is a separate object");
    VP_ASSERT(c->background_color->r == keep.r && c->background_color->g == keep.g && c->background_color->b == keep.b, "P02 the copied background color has the same value");
    c->background_color->r = nd_u8();
    VP_ASSERT(bg->r == keep.r, "P02 changing the copy does not change the original");
  } else
    VP_ASSERT(c->background_color == NULL, "P02 no background color stays no background color");
  at_fitting_opts_free(c);
  VP_ASSERT(!has || (bg->r == keep.r && bg->g == keep.g && bg->b == keep.b), "P02 freeing the copy leaves the original usable");
  at_fitting_opts_free(o);
  VP_REACH("fitting");
}

void h_fitting_null(void)
{
  VP_ASSERT(at_fitting_opts_copy(NULL) == NULL, "P02 copying no fitting options yields none");
  VP_REACH("null");
}

void h_fitting_new(void)
{
  at_fitting_opts_type *a = at_fitting_opts_new(), *b, snap;
  snap = *a;
  VP_ASSERT(a->background_color == NULL && a->color_count == 0 && a->despeckle_level == 0 && !a->centerline && !a->preserve_width
            && !a->remove_adjacent_corners && !a->remove_knees && a->charcode == 0, "P02 new fitting options have every optional step switched off");
  VP_ASSERT(a->corner_always_threshold == 60.0f && a->corner_threshold == 100.0f && a->error_threshold == 2.0f
            && a->line_threshold == 1.0f && a->line_reversion_threshold == .01f && a->tangent_surround == 3
            && a->despeckle_tightness == 2.0f && a->noise_removal == .99f, "P02 new fitting options have the documented thresholds");
  *a = any_fitting(NULL);
  b = at_fitting_opts_new();
  VP_ASSERT(same_fitting(b, &snap) && b->background_color == NULL && b != a, "P02 new fitting options do not depend on earlier ones");
  at_fitting_opts_free(a);
  at_fitting_opts_free(b);
  VP_REACH("new");
}

void h_input(void)
{
  at_color keep;
  bool has = nd_bool();
  at_color *bg = has ? any_color(&keep) : NULL;
  at_input_opts_type *o = at_input_opts_new(), *c;
  unsigned cc = nd_u32();
  VP_ASSERT(o->background_color == NULL && o->charcode == 0, "P02 new input options are empty");
  o->background_color = bg;
  o->charcode = cc;
  c = at_input_opts_copy(o);
  VP_ASSERT(c != o && c->charcode == cc && o->charcode == cc && o->background_color == bg, "P02 a copy of input options has every value of the original");
  if (has) {
    VP_ASSERT(c->background_color != NULL && c->background_color != bg, "P02 the copied input background color is a separate object");
    VP_ASSERT(c->background_color->r == keep.r && c->background_color->g == keep.g && c->background_color->b == keep.b, "P02 the copied input background color has the same value");
  } else
    VP_ASSERT(c->background_color == NULL, "P02 no input background color stays none");
  at_input_opts_free(c);
  VP_ASSERT(!has || (bg->r == keep.r && bg->g == keep.g && bg->b == keep.b), "P02 freeing the copied input options leaves the original usable");
  at_input_opts_free(o);
  VP_REACH("input");
}

void h_output(void)
{
  at_output_opts_type *o = at_output_opts_new(), *c;
  int dpi = nd_int();
  VP_ASSERT(o->dpi == 72, "P02 new output options assume 72 dots per inch");
  o->dpi = dpi;
  c = at_output_opts_copy(o);
  VP_ASSERT(c != o && c->dpi == dpi && o->dpi == dpi, "P02 a copy of output options has the value of the original");
  c->dpi = nd_int();
  VP_ASSERT(o->dpi == dpi, "P02 changing copied output options leaves the original alone");
  at_output_opts_free(c);
  VP_ASSERT(o->dpi == dpi, "P02 freeing copied output options leaves the original alone");
  at_output_opts_free(o);
  VP_REACH("output");
}
