/* P26: CGM.  Any picture: the bytes written are the elements of the picture.
 * Extraction: elements of the picture come from vp_ghost.h, and fwrite is a
 * recorder; in the goal of the whole file write16 and write8 stand for their
 * contracts (proved in the goal words).  Everything else is output-cgm.c. */
static float vp_top = 1e6f;
#define VP_CMIN 0.0f
#define VP_CMAX vp_top
#include "types.h"
#include "spline.h"
static void vp_at_list(unsigned n), vp_at_spline(unsigned n, spline_type *e);
#define VP_AT_LIST(n) vp_at_list(n)
#define VP_AT_SPLINE(n, e) vp_at_spline(n, e)
#include "vp_ghost.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "autotrace.h"
const char *at_version(bool l) { return "V"; }
/* the words called for by what was read last: g_w[g_k] .. g_w[g_n - 1]; g_c: 1 the end of the path
 * is due, 2 the end of the picture, 3 the end of the file, 4 nothing more */
unsigned short g_h[40], g_w[10]; int g_hn, g_hk, g_k, g_n, g_c; unsigned g_lists, g_spl; int g_ury;
unsigned char g_hi; bool g_half;
at_color g_bg; bool g_hasbg;
#ifdef VP_FWRITE
unsigned char r_b[400]; int r_n;
size_t vp_put(const void *p, size_t s, size_t n, FILE *f) { VP_ASSERT(s == 1 && n == 1 && r_n < 400, "bytes are written one by one"); r_b[r_n++] = *(const unsigned char *)p; return 1; }
#define fwrite vp_put
#endif
#include "output-cgm.c"
bool vp_w16(FILE *f, uint16_t v)
{
  VP_ASSERT(!g_half, "bytes are written in pairs");
  if (g_hk < g_hn) { VP_ASSERT(v == g_h[g_hk], "the header is written"); g_hk++; }
  else if (g_k < g_n) { VP_ASSERT(v == g_w[g_k], "what the path calls for is written"); g_k++; }
  else if (g_c == 1) { VP_ASSERT(v == (vp_center ? 0x0200 : 0x0120), "a path is ended"); g_c = g_lists == vp_nlists ? 2 : 0; }
  else if (g_c == 2) { VP_ASSERT(v == 0x00A0, "the picture is ended"); g_c = 3; }
  else { VP_ASSERT(g_c == 3 && v == 0x0040, "the file is ended, nothing else is written"); g_c = 4; }
  return true;
}
bool vp_w8(FILE *f, uint8_t v) { if (!g_half) { g_hi = v; g_half = 1; } else { g_half = 0; vp_w16(f, g_hi << 8 | v); } return true; }
static unsigned short g_x(at_real_coord *c) { return (uint16_t)c->x; }
static unsigned short g_y(at_real_coord *c) { return (uint16_t)(g_ury - c->y); }
static void vp_at_list(unsigned n)
{
  at_color c = vp_cur.clockwise && g_hasbg ? g_bg : vp_cur.color; bool end = g_c == 1;
  VP_ASSERT(n == g_lists && g_k == g_n && g_hk == g_hn && (n == 0 ? g_c == 0 : g_spl == vp_prev.length && g_c <= 1), "the path before is complete");
  g_lists++; g_spl = 0; g_c = 0; g_k = end ? 0 : 1; g_n = 7; g_hk = g_hn; g_half = 0;
  g_w[0] = vp_center ? 0x0200 : 0x0120; g_w[1] = vp_center ? 0x5083 : 0x52E3; g_w[2] = c.r << 8 | c.g; g_w[3] = c.b << 8;
  g_w[4] = vp_center ? 0x53C2 : 0x52C2; g_w[5] = 1; g_w[6] = vp_center ? 0x01E0 : 0x0100;
}
static void vp_at_spline(unsigned n, spline_type *e)
{
  if (n != g_spl) return;
  VP_ASSERT(g_k == g_n && g_c == 0, "what was read before is written");
  g_k = 0; g_c = n + 1 == vp_cur.length; g_spl++;
  if (e->degree == LINEARTYPE) { g_n = 5; g_w[0] = 0x4028; g_w[1] = g_x(&e->v[0]); g_w[2] = g_y(&e->v[0]); g_w[3] = g_x(&e->v[3]); g_w[4] = g_y(&e->v[3]); }
  else { g_n = 10; g_w[0] = 0x4352; g_w[1] = 2; g_w[2] = g_x(&e->v[0]); g_w[3] = g_y(&e->v[0]); g_w[4] = g_x(&e->v[1]); g_w[5] = g_y(&e->v[1]); g_w[6] = g_x(&e->v[2]); g_w[7] = g_y(&e->v[2]); g_w[8] = g_x(&e->v[3]); g_w[9] = g_y(&e->v[3]); }
}
static void h8(unsigned v) { if (g_half) { g_half = 0; g_h[g_hn++] = g_hi << 8 | v; } else { g_hi = v; g_half = 1; } }
static void h16(unsigned v) { g_h[g_hn++] = v; }
/* no loops here: they would be taken for loops of the writer */
void h_cgm(void)
{
  spline_list_array_type shape; at_color bg; int llx = nd_u32(), lly = nd_u32(), urx = nd_u32();
  g_ury = nd_u32(); VP_ASSUME(g_ury >= 1 && g_ury <= 32767); vp_top = g_ury;
  vp_nlists = nd_u32(); VP_ASSUME(vp_nlists <= 1000000);
  vp_center = nd_bool(); vp_open = nd_bool(); vp_li = -1; g_lists = g_spl = 0; g_hn = g_hk = g_k = g_n = 0; g_half = 0;
  bg.r = nd_u8(); bg.g = nd_u8(); bg.b = nd_u8(); g_bg = bg; g_hasbg = nd_bool();
  shape.data = NULL; shape.length = vp_nlists; shape.centerline = vp_center; shape.background_color = g_hasbg ? &bg : NULL;
  g_c = vp_nlists ? 0 : 2;
  h16(0x0023); h8(2); h8('a'); h8('b'); h8(0); h16(0x1022); h16(2); h16(0x104D); h8(12); h8('c'); h8('r'); h8('e'); h8('a'); h8('t'); h8('e'); h8('d'); h8(' '); h8('b'); h8('y'); h8(' '); h8('V'); h8(0);
  h16(0x1166); h16(1); h16(0xFFFF); h16(1); h16(0x0065); h8(4); h8('p'); h8('i'); h8('c'); h8('1'); h8(0); h16(0x2042); h16(1); h16(0x20C8); h16(llx); h16(urx); h16(g_ury); h16(lly); h16(0x0080);
  output_cgm_writer(NULL, "ab", llx, lly, urx, g_ury, NULL, shape, NULL, NULL, NULL);
  VP_REACH("end");
  VP_ASSERT(g_hk == g_hn && g_k == g_n && g_c == 4 && g_lists == vp_nlists && (g_lists == 0 || g_spl == vp_cur.length), "the file is complete");
}
#ifdef VP_FWRITE
void h_words(void)
{
  unsigned v = nd_u32(); r_n = 0;
  VP_ASSERT(write16(NULL, (uint16_t)v) && r_n == 2 && r_b[0] == (v >> 8 & 255) && r_b[1] == (v & 255), "a word is written, high byte first");
  VP_ASSERT(write8(NULL, (uint8_t)v) && r_n == 3 && r_b[2] == (v & 255), "a byte is written");
  VP_REACH("end");
}
/* the name of the file, of any length up to the bound */
void h_name(void)
{
  static char s[VP_LEN + 1]; unsigned n = nd_u32(), p, i;
  VP_ASSUME(n >= VP_LO && n <= VP_LEN); 
  for (i = 0; i < VP_LEN; i++) { s[i] = nd_u8(); VP_ASSUME((s[i] == 0) == (i >= n)); }
  s[VP_LEN] = 0; r_n = 0;
  output_beginmetafilename(NULL, s);
  VP_REACH("end");
  p = n < 255 ? n + 1 : n + 3;
  VP_ASSERT(r_b[0] == 0 && r_b[1] == (32 | (p < 31 ? p : 31)), "the name is announced");
  i = 2;
  if (p >= 31) { VP_ASSERT(r_b[2] == p >> 8 && r_b[3] == (p & 255), "a long name has its length in a word"); i = 4; }
  VP_ASSERT(r_n == (int)(i + p + (p & 1)), "the name is as long as announced");
  if (n < 255) { VP_ASSERT(r_b[i] == n, "the string has its length"); i++; } else { VP_ASSERT(r_b[i] == 255 && r_b[i + 1] == n >> 8 && r_b[i + 2] == (n & 255), "a long string has its length in a word"); i += 3; }
  unsigned k = nd_u32(); VP_ASSUME(k < n);
  VP_ASSERT(r_b[i + k] == (unsigned char)s[k], "the characters are written");
}
#endif
