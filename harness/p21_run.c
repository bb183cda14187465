/* P21 executed: SVG files of generated pictures against the text the property calls for. */
#include "autotrace.h"
#include "vp_run.h"
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "spline.c"
#include "vector.c"
#include "epsilon-equal.c"
#include "output-svg.c"
#include "vp_shape.h"
static void svg(spline_list_array_type a, int w, int h)
{
  unsigned i, k; const char *in = NULL;
  ex("<?xml version=\"1.0\" standalone=\"yes\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\"\nxmlns:xlink=\"http://www.w3.org/1999/xlink\"\nwidth=\"%d\" height=\"%d\">\n", w, h);
  for (i = 0; i < a.length; i++) {
    spline_list_type l = a.data[i]; int stroke = a.centerline || l.open;
    if (i == 0 || a.data[i - 1].color.r != l.color.r || a.data[i - 1].color.g != l.color.g || a.data[i - 1].color.b != l.color.b)
      ex("<path style=\"%s:#%02x%02x%02x; %s:none;\" d=\"", stroke ? "stroke" : "fill", l.color.r, l.color.g, l.color.b, stroke ? "fill" : "stroke");
    ex("M%g %g", l.data[0].v[0].x, h - l.data[0].v[0].y);
    for (k = 0; k < l.length; k++) {
      spline_type s = l.data[k];
      if (s.degree == LINEARTYPE) ex("L%g %g", s.v[3].x, h - s.v[3].y);
      else ex("C%g %g %g %g %g %g", s.v[1].x, h - s.v[1].y, s.v[2].x, h - s.v[2].y, s.v[3].x, h - s.v[3].y);
    }
    if (i == a.length - 1 || a.data[i + 1].color.r != l.color.r || a.data[i + 1].color.g != l.color.g || a.data[i + 1].color.b != l.color.b) ex("%s\"/>\n", stroke ? "" : "z");
  }
  ex("</svg>\n");
}
void h_run(void)
{
  int n;
  vp_seed(VP_S);
  for (n = 0; n < VP_N; n++) {
    spline_list_array_type a;
    vp_maxlists = n % 50 == 49 ? 300 : 9; vp_maxspl = n % 50 == 24 ? 300 : 9; vp_maxcol = n % 50 == 49 ? 60 : 5;
    a = vp_shape();
    vp_box(a); vp_describe(a); vp_cases++;
    vp_write(output_svg_writer, a);
    svg(a, a.width, a.height);
    vp_check_text("P21 the SVG file draws every outline once, with its points, colour and style");
    vp_got_free(); vp_shape_free(a);
    VP_ASSERT(vp_blocks == 0, "P21 everything is freed");
  }
  VP_DONE();
}
