/* P09: the TGA reader.  Real code: src/input-tga.c, src/autotrace.c (bitmaps), src/exception.c */
#include "autotrace.h"
#include "vp.h"
#include "vp_file.h"
#include "input-tga.c"

static at_bitmap read_it(void)
{
  at_input_opts_type o;
  o.background_color = NULL; o.charcode = 0;
  return input_tga_reader("f", &o, vp_msg, &vp_msg_tag, NULL);
}
static void check_common(at_bitmap *b)
{
  VP_ASSERT(vp_fopen_count == 0, "P09 the file is closed again");
  VP_ASSERT(b->np == 1 || b->np == 3, "P09 an image has one or three planes");
#ifdef VP_CBMC
  VP_ASSERT(b->width == 0 || b->height == 0 || __CPROVER_rw_ok(b->bitmap, (size_t)b->width * b->height * b->np), "P09 the image has storage for every pixel");
#endif
}
static void load_file(void)
{
  static const short t[] = { VP_BYTES };
  unsigned i;
  for (i = 0; i < sizeof t / sizeof t[0]; i++) vp_fdata[i] = t[i] >= 0 ? (vp_u8)t[i] : nd_u8();
  vp_flen = sizeof t / sizeof t[0];
}
#ifdef VP_W
/* raw pixel data after undoing the run-length coding, by definition of the format */
static vp_u8 raw[VP_W * VP_HT * VP_B];
static unsigned rawlen; /* complete pixels */
static unsigned decode(unsigned p)
{
  unsigned n = 0, i, k;
  if (!VP_RLE) {
    for (n = 0; n < VP_W * VP_HT && p + VP_B <= vp_flen; n++, p += VP_B)
      for (k = 0; k < VP_B; k++) raw[n * VP_B + k] = vp_fdata[p + k];
  } else
    while (n < VP_W * VP_HT && p < vp_flen) {
      unsigned c = vp_fdata[p++], cnt = (c & 127) + 1;
      if (p + (c & 128 ? 1 : cnt) * VP_B > vp_flen) { p = vp_flen; break; }
      for (i = 0; i < cnt && n < VP_W * VP_HT; i++, n++)
        for (k = 0; k < VP_B; k++) raw[n * VP_B + k] = vp_fdata[p + (c & 128 ? 0 : i * VP_B) + k];
      p += (c & 128 ? 1 : cnt) * VP_B;
    }
  rawlen = n;
  return p;
}
static void expect(at_bitmap *b)
{
  unsigned r, c;
  for (r = 0; r < VP_HT; r++)
    for (c = 0; c < VP_W; c++) {
      vp_u8 e[3] = { 0, 0, 0 }, *v = raw + (r * VP_W + c) * VP_B;
      unsigned rr = VP_FLAGS & 0x20 ? r : VP_HT - 1 - r, cc = VP_FLAGS & 0x10 ? VP_W - 1 - c : c;
      vp_u8 *px = b->bitmap + (rr * VP_W + cc) * 3;
      if (VP_KIND == 1) {
        int i = v[0] - VP_FIRST;
        if (i >= 0 && i < VP_PALN) { vp_u8 *q = vp_fdata + VP_PAL + i * VP_PALS; e[0] = q[2]; e[1] = q[1]; e[2] = q[0]; }
      } else if (VP_KIND == 2) { e[0] = v[2]; e[1] = v[1]; e[2] = v[0]; }
      else e[0] = e[1] = e[2] = v[0];
      VP_ASSERT(px[0] == e[0] && px[1] == e[1] && px[2] == e[2], "P09 every pixel gets its color, at its place");
    }
}
void h_ok(void)
{
  load_file();
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_fatals == 0, "P09 a well-formed file raises no fatal error");
  VP_ASSERT(b.width == VP_W && b.height == VP_HT && b.np == 3, "P09 the image has the size the header states");
  unsigned end = decode(VP_OFF);
  VP_ASSERT(rawlen == VP_W * VP_HT || vp_msgs > 0, "P09 a truncated image is reported");
  VP_ASSERT(rawlen < VP_W * VP_HT || end < vp_flen || vp_msgs == VP_WARN, "P09 a complete image raises no message");
  expect(&b);
  VP_REACH("ok");
}
#ifdef VP_FIRSTFILE
/* a run left over from one image must not reach the next: read twice */
void h_twice(void)
{
  static const short t0[] = { VP_FIRSTFILE };
  unsigned i;
  for (i = 0; i < sizeof t0 / sizeof t0[0]; i++) vp_fdata[i] = t0[i] >= 0 ? (vp_u8)t0[i] : nd_u8();
  vp_flen = sizeof t0 / sizeof t0[0];
  at_bitmap a = read_it();
  check_common(&a);
  vp_msgs = vp_fatals = 0;
  h_ok();
}
#endif
#endif
void h_bad(void)
{
  load_file();
  vp_fopen_fails = VP_NOFILE;
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_fatals == 1, "P09 a malformed file is reported once");
  VP_REACH("bad");
}
