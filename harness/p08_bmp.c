/* P08: the BMP reader.  Real code: src/input-bmp.c, src/autotrace.c (bitmaps), src/exception.c */
#include "autotrace.h"
#include "vp.h"
#include "vp_file.h"
#include "input-bmp.c"

static at_bitmap read_it(void)
{
  at_input_opts_type o;
  o.background_color = NULL; o.charcode = 0;
  return input_bmp_reader("f", &o, vp_msg, &vp_msg_tag, NULL);
}
static void check_common(at_bitmap *b)
{
  VP_ASSERT(vp_fopen_count == 0, "P08 the file is closed again");
  VP_ASSERT(b->np == 1 || b->np == 3, "P08 an image has one or three planes");
#ifdef VP_CBMC
  VP_ASSERT(b->width == 0 || b->height == 0 || __CPROVER_rw_ok(b->bitmap, (size_t)b->width * b->height * b->np), "P08 the image has storage for every pixel");
#endif
}
/* the file: VP_BYTES, where -1 is any byte */
static void load_file(void)
{
  static const short t[] = { VP_BYTES };
  unsigned i;
  for (i = 0; i < sizeof t / sizeof t[0]; i++) vp_fdata[i] = t[i] >= 0 ? (vp_u8)t[i] : nd_u8();
  vp_flen = sizeof t / sizeof t[0];
}

#ifdef VP_W
/* what the pixel values of the file mean, by definition of the format */
static vp_u8 idx[VP_HT][VP_W];
static bool grey_map(void)
{
  unsigned i;
  bool g = VP_PALN > 2;
  for (i = 0; i < VP_PALN; i++) {
    vp_u8 *e = vp_fdata + VP_PAL + i * VP_PALS;
    if (e[0] != e[1] || e[1] != e[2]) g = false;
  }
  return g;
}
#if VP_BPP <= 8
static void decode_plain(void)
{
  unsigned r, c, row = (VP_W * VP_BPP + 31) / 32 * 4;
  for (r = 0; r < VP_HT; r++)
    for (c = 0; c < VP_W; c++) {
      unsigned bit = c * VP_BPP;
      unsigned at = VP_OFF + r * row + bit / 8;
      vp_u8 v = at < vp_flen ? (vp_fdata[at] >> (8 - VP_BPP - bit % 8)) & ((1 << VP_BPP) - 1) : 0;
      idx[VP_TOP ? r : VP_HT - 1 - r][c] = v;
    }
}
static void decode_rle(void)
{
  int x = 0, y = VP_HT - 1, i;
  unsigned p = VP_OFF;
  while (y >= 0 && p + 1 < vp_flen) {
    int n = vp_fdata[p], v = vp_fdata[p + 1];
    p += 2;
    if (n) {
      for (i = 0; i < n && x < VP_W; i++, x++) idx[y][x] = VP_BPP == 8 ? v : i % 2 ? v & 15 : v >> 4;
    } else if (v == 0) { y--; x = 0; }
    else if (v == 1) break;
    else if (v == 2) { x += vp_fdata[p]; y -= vp_fdata[p + 1]; p += 2; }
    else {
      for (i = 0; i < v && x < VP_W; i++, x++) { int b = vp_fdata[p + (VP_BPP == 8 ? i : i / 2)]; idx[y][x] = VP_BPP == 8 ? b : i % 2 ? b & 15 : b >> 4; }
      n = VP_BPP == 8 ? v : (v + 1) / 2;
      p += n + n % 2;
    }
  }
}
void h_indexed(void)
{
  unsigned r, c;
  load_file();
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_msgs == 0, "P08 a well-formed file raises no message");
  VP_ASSERT(b.width == VP_W && b.height == VP_HT, "P08 the image has the size the header states");
  VP_ASSERT(b.np == (grey_map() ? 1 : 3), "P08 an image is gray exactly when its color map is");
  if (VP_RLE) decode_rle(); else decode_plain();
  for (r = 0; r < VP_HT; r++)
    for (c = 0; c < VP_W; c++) {
      vp_u8 v = idx[r][c], zero[4] = { 0 };
      vp_u8 *e = v < VP_PALN ? vp_fdata + VP_PAL + v * VP_PALS : zero;
      vp_u8 *px = b.bitmap + (r * VP_W + c) * b.np;
      if (b.np == 3) VP_ASSERT(px[0] == e[2] && px[1] == e[1] && px[2] == e[0], "P08 every indexed pixel gets the color of its color map entry");
      else VP_ASSERT(px[0] == e[0], "P08 every indexed pixel gets the gray value of its color map entry");
    }
  VP_REACH("indexed");
}
#else
static void decode_rgb(unsigned at, vp_u8 *out)
{
  unsigned v = 0, i, m[3] = { VP_MASKS }, k;
  for (i = 0; i < VP_BPP / 8; i++) v |= (unsigned)vp_fdata[at + i] << (8 * i);
  for (k = 0; k < 3; k++) {
    unsigned mask = m[k], x = v & mask, mx = mask;
    if (mask == 0) { out[k] = 0; continue; }
    while (!(mask & 1)) { mask >>= 1; x >>= 1; }
    mx = mask;
    out[k] = mx == 255 ? x : (vp_u8)((unsigned)(((unsigned long)x * 510 + mx) / (2ul * mx)));
  }
}
void h_true(void)
{
  unsigned r, c, row = (VP_W * VP_BPP + 31) / 32 * 4;
  load_file();
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_msgs == 0, "P08 a well-formed file raises no message");
  VP_ASSERT(b.width == VP_W && b.height == VP_HT && b.np == 3, "P08 a true color image has the size the header states and three planes");
  for (r = 0; r < VP_HT; r++)
    for (c = 0; c < VP_W; c++) {
      vp_u8 e[3], *px = b.bitmap + ((VP_TOP ? r : VP_HT - 1 - r) * VP_W + c) * 3;
      unsigned at = VP_OFF + r * row + c * (VP_BPP / 8);
      if (VP_OFF + (r + 1) * row > vp_flen) e[0] = e[1] = e[2] = 0;
      else decode_rgb(at, e);
      VP_ASSERT(px[0] == e[0] && px[1] == e[1] && px[2] == e[2], "P08 every true color pixel gets its red, green and blue");
    }
  VP_REACH("true");
}
#endif
#endif

/* malformed: one fatal message and no image */
void h_bad(void)
{
#ifdef VP_BYTES
  load_file();
#endif
  vp_fopen_fails = VP_NOFILE;
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_fatals == 1, "P08 a malformed file is reported once");
  VP_REACH("bad");
}
