/* P07: the PNM reader.  Real code: src/input-pnm.c, src/autotrace.c (bitmaps), src/exception.c */
#ifndef VP_FMAX
#define VP_FMAX 16
#endif
#include <ctype.h>
#include "autotrace.h"
#include "vp.h"
#include "vp_file.h"
#include "input-pnm.c"

static at_bitmap read_it(void)
{
  at_input_opts_type o;
  o.background_color = NULL; o.charcode = 0;
  return input_pnm_reader("f", &o, vp_msg, &vp_msg_tag, NULL);
}
static void check_common(at_bitmap *b)
{
  VP_ASSERT(vp_fopen_count == 0, "P07 the file is closed again");
  VP_ASSERT(b->np == 0 || b->np == 1 || b->np == 3, "P07 an image has one or three planes");
  VP_ASSERT(vp_fatals == 0 ? b->np != 0 && b->width > 0 && b->height > 0 && b->bitmap : true, "P07 without a fatal message there is an image");
#ifdef VP_CBMC
  VP_ASSERT(b->bitmap == NULL || __CPROVER_rw_ok(b->bitmap, (size_t)b->width * b->height * b->np), "P07 the image has storage for every pixel");
#endif
}


/* A fixed header VP_HDR, then arbitrary bytes; VP_W x VP_H x VP_NP samples, maxval VP_MAX. */
#ifndef VP_CUT
#define VP_CUT 0
#endif
#ifdef VP_HDR
static void header(unsigned body)
{
  static const char hdr[] = VP_HDR;
  unsigned i, n = sizeof hdr - 1;
  for (i = 0; i < n; i++) vp_fdata[i] = hdr[i];
  for (i = 0; i < body; i++) vp_fdata[n + i] = nd_u8();
  vp_flen = n + body;
}
static void dims(at_bitmap *b)
{
  VP_ASSERT(b->width == VP_W && b->height == VP_H && b->np == VP_NP && b->bitmap != NULL, "P07 the image has the dimensions and planes the header states");
}
/* raw PGM/PPM */
void h_raw(void)
{
  unsigned n = sizeof VP_HDR - 1, k, need = VP_W * VP_H * VP_NP;
  unsigned cut = VP_CUT;
  header(need);
  vp_flen -= cut;
  at_bitmap b = read_it();
  check_common(&b);
  dims(&b);
  VP_ASSERT((vp_fatals > 0) == (cut > 0), "P07 a truncated raw file is reported, a complete one is not");
  if (cut == 0)
    for (k = 0; k < need; k++) {
      unsigned v = vp_fdata[n + k];
      if (v <= VP_MAX) VP_ASSERT(b.bitmap[k] == (VP_MAX == 255 ? v : v * 255 / VP_MAX), "P07 every raw sample is scaled by the maximum value");
    }
  VP_REACH("raw");
}
/* raw PBM: rows of packed bits, most significant first, 1 is black */
void h_rawpbm(void)
{
  unsigned n = sizeof VP_HDR - 1, r, c, row = (VP_W + 7) / 8, need = row * VP_H;
  unsigned cut = VP_CUT;
  header(need);
  vp_flen -= cut;
  at_bitmap b = read_it();
  check_common(&b);
  dims(&b);
  VP_ASSERT((vp_fatals > 0) == (cut > 0), "P07 a truncated raw bitmap is reported, a complete one is not");
  if (cut == 0)
    for (r = 0; r < VP_H; r++) for (c = 0; c < VP_W; c++) {
      bool black = vp_fdata[n + r * row + c / 8] >> (7 - c % 8) & 1;
      VP_ASSERT(b.bitmap[r * VP_W + c] == (black ? 0 : 255), "P07 every packed bit becomes a black or white pixel");
    }
  VP_REACH("rawpbm");
}
/* ASCII, concrete: body VP_T, samples VP_VALS (fewer than needed: a fatal message is due) */
#ifdef VP_T
void h_ascii(void)
{
  static const char hdr[] = VP_HDR, tpl[] = VP_T;
  static const int val[] = { VP_VALS -1 };
  unsigned n = sizeof hdr - 1, m = sizeof tpl - 1, i, k = sizeof val / sizeof val[0] - 1, need = VP_W * VP_H * VP_NP;
  for (i = 0; i < n; i++) vp_fdata[i] = hdr[i];
  for (i = 0; i < m; i++) vp_fdata[n + i] = tpl[i];
  vp_flen = n + m;
  at_bitmap b = read_it();
  check_common(&b);
  dims(&b);
  VP_ASSERT((vp_fatals > 0) == (k < need), "P07 an ASCII file is reported exactly when samples are missing");
  for (i = 0; i < k; i++)
    if (VP_PBM) VP_ASSERT(b.bitmap[i] == (val[i] == 0 ? 255 : 0), "P07 an ASCII bitmap sample is black for 1 and white for 0");
    else VP_ASSERT(b.bitmap[i] == val[i] * 255 / VP_MAX, "P07 every ASCII sample is scaled by the maximum value");
  VP_REACH("ascii");
}
#endif

/* ASCII, any samples: the token scanner replaced by its contract */
#ifndef VP_T
static int vp_tokens, vp_tokval[VP_W * VP_H * VP_NP + 1];
static bool vp_bad_call, vp_small;
static int vp_last;
static void c_token(PNMScanner *s, unsigned char *buf)
{
  unsigned char c = nd_u8();
  VP_ASSUME(c >= '0' && c <= '9');
  if (s->eof || nd_bool()) { s->eof = 1; buf[0] = 0; return; } /* nothing left */
  VP_ASSERT(vp_tokens < VP_W * VP_H * VP_NP, "P07 no more samples are read than the image has");
  buf[0] = c;
  vp_last = VP_PBM ? c - '0' : nd_u16();
  VP_ASSUME(vp_last <= VP_MAX);
  if (vp_tokens <= VP_W * VP_H * VP_NP) vp_tokval[vp_tokens] = vp_last;
  vp_tokens++;
  if (nd_bool()) s->eof = 1; /* the file may end right after the token */
}
void c_gettoken(PNMScanner *s, unsigned char *buf, unsigned n)
{
#ifdef VP_CBMC
  VP_ASSERT(n >= 2 && __CPROVER_w_ok(buf, n), "P07 the token buffer has the stated size");
#endif
  c_token(s, buf);
}
void c_getsmalltoken(PNMScanner *s, unsigned char *buf) { vp_small = true; c_token(s, buf); }
int c_atoi(const char *s) { return vp_last; }
static unsigned char vp_px[VP_W * VP_H * VP_NP];
void h_loader(void)
{
  PNMScanner sc; PNMInfo in;
  unsigned i;
  at_exception_type e = at_exception_new(vp_msg, &vp_msg_tag);
  vp_fopen_count = 1; sc.fd = VP_FH;
  sc.inbuf = NULL; sc.eof = nd_bool(); sc.cur = nd_u8();
  in.xres = VP_W; in.yres = VP_H; in.maxval = VP_MAX; in.np = VP_PBM ? 0 : VP_NP; in.asciibody = 1;
  pnm_load_ascii(&sc, &in, vp_px, &e);
  VP_ASSERT((vp_fatals > 0) == (vp_tokens < VP_W * VP_H * VP_NP), "P07 an ASCII body is reported exactly when samples are missing");
  VP_ASSERT(vp_small == VP_PBM || vp_tokens == 0, "P07 bitmaps are read digit by digit, other images number by number");
  for (i = 0; i < VP_W * VP_H * VP_NP; i++)
    if (i < (unsigned)vp_tokens)
      VP_ASSERT(vp_px[i] == (VP_PBM ? (vp_tokval[i] == 0 ? 255 : 0) : vp_tokval[i] * 255 / VP_MAX), "P07 the samples of an ASCII body land in order, scaled by the maximum value");
    else
      VP_ASSERT(vp_px[i] == 0, "P07 missing samples stay black");
  VP_REACH("loader");
}
#endif
#endif
/* a malformed or unreadable file: one fatal message, no image, nothing leaked */
#ifdef VP_BAD
void h_bad(void)
{
  static const char txt[] = VP_BAD;
  unsigned i;
  for (i = 0; i < sizeof txt - 1; i++) vp_fdata[i] = txt[i];
  vp_flen = sizeof txt - 1;
  vp_fopen_fails = VP_NOFILE;
  at_bitmap b = read_it();
  check_common(&b);
  VP_ASSERT(vp_fatals == 1, "P07 a malformed file is reported once");
  VP_ASSERT(b.bitmap == NULL && b.width == 0 && b.height == 0, "P07 a malformed header yields no image");
  VP_REACH("bad");
}
#endif
