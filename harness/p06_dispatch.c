/* P06: at_bitmap_read and at_splines_write.  Real code: src/autotrace.c, src/color.c */
#include "vp.h"
#include "autotrace.h"
#include "autotrace.c"
#include "color.c"
#include "private.h"
#include "spline.c"

static int tag_reader, tag_msg, calls, in_c_numeric;
static char the_name[2];
static at_input_opts_type *given_in, snap_in;
static at_output_opts_type *given_out, snap_out;
static at_bitmap produced;
static at_splines_type shape;
static FILE *the_file;

char *setlocale(int cat, const char *l)
{
  if ((cat == LC_NUMERIC || cat == LC_ALL) && l && l[0]) in_c_numeric = l[0] == 'C' && l[1] == 0;
  return "C";
}
static void msg(const char *m, at_msg_type t, void *d) { }

static at_bitmap reader_func(char *name, at_input_opts_type *o, at_msg_func f, void *fd, void *ud)
{
  calls++;
  VP_ASSERT(name == the_name, "P06 the reader gets the caller's file name");
  VP_ASSERT(f == msg && fd == &tag_msg && ud == &tag_reader, "P06 the reader gets the caller's message function and its own data");
  VP_ASSERT(o != NULL, "P06 the reader always gets options");
  if (given_in) VP_ASSERT(o == given_in, "P06 the reader gets the caller's options");
  else VP_ASSERT(o->charcode == 0 && o->background_color == NULL, "P06 without options the reader gets the defaults");
  return produced;
}

static void read_one(void)
{
  at_bitmap_reader r;
  at_input_opts_type o;
  at_bitmap *b;
  calls = 0;
  r.func = reader_func; r.data = &tag_reader;
  o.charcode = nd_u32(); o.background_color = NULL;
  given_in = nd_bool() ? &o : NULL;
  snap_in = o;
  produced.width = nd_u16(); produced.height = nd_u16(); produced.np = nd_u32();
  produced.bitmap = nd_bool() ? malloc(1) : NULL;
  b = at_bitmap_read(&r, the_name, given_in, msg, &tag_msg);
  VP_ASSERT(calls == 1, "P06 a file is read once");
  VP_ASSERT(b != NULL && b->width == produced.width && b->height == produced.height && b->np == produced.np && b->bitmap == produced.bitmap, "P06 the caller gets the image the reader produced");
  VP_ASSERT(!given_in || o.charcode == snap_in.charcode, "P06 reading leaves the caller's options alone");
  at_bitmap_free(b);
}
/* a read does not depend on the reads before it */
void h_read(void)
{
  read_one();
  read_one();
  VP_REACH("read");
}

static int writer_func(FILE *f, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *o, at_spline_list_array_type s, at_msg_func mf, void *md, void *ud)
{
  calls++;
  VP_ASSERT(f == the_file, "P06 the writer gets the caller's stream");
  VP_ASSERT(name != NULL, "P06 the writer always gets a file name");
  VP_ASSERT(llx == 0 && lly == 0 && urx == shape.width && ury == shape.height, "P06 the drawing area is the size of the traced image");
  VP_ASSERT(o != NULL && (given_out ? o == given_out : o->dpi == 72), "P06 the writer gets the caller's options or the defaults");
  VP_ASSERT(mf == msg && md == &tag_msg, "P06 the writer gets the caller's message function");
  VP_ASSERT(s.data == shape.data && s.length == shape.length && s.width == shape.width && s.height == shape.height
    && s.background_color == shape.background_color && s.centerline == shape.centerline && s.preserve_width == shape.preserve_width
    && VP_FEQ(s.width_weight_factor, shape.width_weight_factor), "P06 the writer gets the caller's shapes");
  VP_ASSERT(in_c_numeric, "P06 numbers are written with a decimal point in every locale");
  return 0;
}

static void write_one(void)
{
  at_spline_writer w;
  at_output_opts_type o;
  char *nm;
  calls = 0;
  w.func = writer_func; w.data = NULL;
  o.dpi = nd_int();
  given_out = nd_bool() ? &o : NULL;
  snap_out = o;
  shape.width = nd_u16(); shape.height = nd_u16(); shape.length = nd_u32(); shape.data = NULL; shape.background_color = NULL;
  shape.centerline = nd_bool(); shape.preserve_width = nd_bool(); shape.width_weight_factor = nd_float();
  in_c_numeric = nd_bool();
  nm = nd_bool() ? the_name : NULL;
  the_file = (FILE *)&tag_msg;
  at_splines_write(&w, the_file, nm, given_out, &shape, msg, &tag_msg);
  VP_ASSERT(calls == 1, "P06 the shapes are written once");
  VP_ASSERT(o.dpi == snap_out.dpi, "P06 writing leaves the caller's options alone");
}
void h_write(void)
{
  write_one();
  write_one();
  VP_REACH("write");
}
