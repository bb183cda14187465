/* P08: color maps of any length, channel masks, numbers.  Real code: src/input-bmp.c */
#include "autotrace.h"
#include "vp.h"
#include "exception.c"
#include "logreport.h"
#undef LOG
#define LOG(...) ((void)0) /* logging left out */
static int vp_fh;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f);
#define fread c_fread
#include "input-bmp.c"
#undef fread
static int g_tag;
unsigned g_fatals;
static void msg(const char *m, at_msg_type t, void *d) { if (t == AT_MSG_FATAL) g_fatals++; VP_ASSERT(d == &g_tag, "P08 messages carry the caller's data"); }
/* entries read so far, the followed one, whether all were gray, where the file ends */
int g_at, g_w, g_size, g_end;
unsigned char g_b, g_g, g_r, g_o0, g_o1, g_o2;
bool g_gray;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f)
{
  unsigned char *q = p;
  VP_ASSERT(f == (FILE *)&vp_fh && (s == g_size && n == 1 || s == 1 && n == g_size), "P08 entry after entry of the color map is read");
  if (g_at == g_end) return 0;
  q[0] = nd_u8(); q[1] = nd_u8(); q[2] = nd_u8(); if (g_size == 4) q[3] = nd_u8();
  if (g_at == g_w) { g_b = q[0]; g_g = q[1]; g_r = q[2]; }
  if (q[0] != q[1] || q[1] != q[2]) g_gray = false;
  g_at++;
  return n;
}
void h_map(void)
{
  static unsigned char map[256][3]; int number = nd_int(), grey = nd_int(), ok;
  at_exception_type e = at_exception_new(msg, &g_tag);
  VP_ASSUME(number >= 0 && number <= 256);
  g_size = nd_bool() ? 4 : 3; g_at = 0; g_gray = true; g_fatals = 0; g_end = nd_int(); g_w = nd_u8();
  VP_ASSUME(g_end >= 0);
  map[g_w][0] = g_o0 = nd_u8(); map[g_w][1] = g_o1 = nd_u8(); map[g_w][2] = g_o2 = nd_u8();
  ok = ReadColorMap((FILE *)&vp_fh, map, number, g_size, &grey, &e);
  if (g_end < number) { VP_ASSERT(!ok && g_fatals == 1, "P08 a color map that ends early is reported once"); VP_REACH("short"); return; }
  VP_ASSERT(ok && g_fatals == 0 && g_at == number, "P08 a complete color map is read to its end");
  if (g_w < number) VP_ASSERT(map[g_w][0] == g_r && map[g_w][1] == g_g && map[g_w][2] == g_b, "P08 every entry has its stored color");
  else VP_ASSERT(map[g_w][0] == g_o0 && map[g_w][1] == g_o1 && map[g_w][2] == g_o2, "P08 entries that are not stored are left alone");
  VP_ASSERT(!grey == !(number > 2 && g_gray), "P08 an image is gray exactly when its color map is (and has more than two colors)");
  VP_REACH("map");
}
void h_masks(void)
{
  unsigned long m[4]; Bitmap_Channel c[4]; unsigned i, n = 0, lo = 0, mask; int k;
  for (i = 0; i < 4; i++) m[i] = nd_u32();
  VP_ASSERT(ReadChannelMasks(m, c, 4) == 0, "P08 masks are always accepted");
  k = nd_u8() % 4; mask = m[k];
  for (i = 32; i-- > 0; ) if (mask >> i & 1) { n++; lo = i; }
  VP_ASSERT(c[k].mask == mask, "P08 a channel has the bits of its mask");
  VP_ASSERT(c[k].shiftin == (n ? lo : 0), "P08 a channel starts at its lowest bit");
  VP_ASSERT(c[k].max_value == (n ? (float)((1ull << n) - 1) : 1.0f), "P08 the largest value of a channel has as many bits as its mask");
  VP_REACH("masks");
}
void h_numbers(void)
{
  unsigned char b[4]; unsigned v;
  b[0] = nd_u8(); b[1] = nd_u8(); b[2] = nd_u8(); b[3] = nd_u8();
  v = b[0] + 256u * b[1] + 65536u * b[2] + 16777216u * b[3];
  VP_ASSERT((unsigned)ToL(b) == v && ToL(b) == (int)v, "P08 numbers of four bytes are read lowest byte first");
  VP_ASSERT((unsigned short)ToS(b) == b[0] + 256u * b[1], "P08 numbers of two bytes are read lowest byte first");
  VP_REACH("numbers");
}
/* the bits of each channel without masks in the file */
void h_default(void)
{
  Bitmap_Channel c[4]; unsigned short bits = nd_bool() ? 32 : nd_bool() ? 24 : 16; unsigned w = bits == 16 ? 5 : 8, k = nd_u8() % 3;
  setMasksDefault(bits, c);
  VP_ASSERT(c[k].shiftin == (2 - k) * w && c[k].mask == ((1ul << w) - 1) << c[k].shiftin && c[k].max_value == (float)((1 << w) - 1), "P08 without masks red, green and blue follow each other, red highest");
  VP_REACH("default");
}
