/* P07: the PNM scanner and loaders for files of any length and images of any size.
 * Real code: src/input-pnm.c.  One byte of the image, any one, is followed (g_w). */
#include <ctype.h>
#include "autotrace.h"
#include "vp.h"
#include "exception.c"
#include "logreport.h"
#undef LOG
#define LOG(...) ((void)0) /* logging left out */
static int vp_fh;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f);
#define fread c_fread
#include "input-pnm.c"
#undef fread
static int g_tag;
unsigned g_fatals;
static void msg(const char *m, at_msg_type t, void *d) { if (t == AT_MSG_FATAL) g_fatals++; VP_ASSERT(d == &g_tag, "P07 messages carry the caller's data"); }
unsigned char *g_data, g_wv, g_sc;
unsigned g_rows, g_w_, g_h;
unsigned long g_n, g_off, g_w, g_total;
int g_max;
bool g_short, g_bit;

#ifdef VP_RAW
/* fread of one row: all of it or less, any content */
static size_t c_fread(void *p, size_t s, size_t n, FILE *f)
{
  size_t got = nd_u32();
  unsigned char keep = g_data[g_w];
  VP_ASSUME(got <= n && g_off + g_n <= g_total); /* lemma row_in_image */
  VP_ASSERT(f == (FILE *)&vp_fh && s == 1 && n == g_n && !g_short && g_rows < g_h, "P07 row after row is read");
  VP_ASSERT(p == g_data + g_off, "P07 every row goes to its place");
  __CPROVER_havoc_object(g_data);
  if (g_w >= g_off && g_w < g_off + got) {
    g_wv = nd_u8();
    VP_ASSUME(g_wv <= g_max);
#ifndef VP_NOVAL
    g_sc = g_max == 255 ? g_wv : (unsigned char)(255.0 * (double)g_wv / (double)g_max);
#endif
    keep = g_wv;
  }
  VP_ASSUME(g_data[g_w] == keep);
  g_short = got < n;
  if (!g_short) { g_off += n; g_rows++; }
  return got;
}
void h_raw(void)
{
  PNMScanner sc; PNMInfo in;
  at_exception_type e = at_exception_new(msg, &g_tag);
  sc.fd = (FILE *)&vp_fh; sc.inbuf = NULL; sc.eof = 0;
  in.xres = nd_u16(); in.yres = nd_u16(); in.np = nd_bool() ? 3 : 1; in.maxval = nd_u8(); in.asciibody = 0;
  VP_ASSUME(in.xres > 0 && in.yres > 0 && in.maxval > 0);
#ifdef VP_MAX
  in.maxval = VP_MAX;
#endif
  g_max = in.maxval; g_h = in.yres; g_n = in.xres * in.np; g_total = g_n * g_h;
  g_off = 0; g_rows = 0; g_short = false; g_fatals = 0; g_wv = g_sc = 0;
  g_w = nd_u64();
  VP_ASSUME(g_w < g_total);
  g_data = malloc(g_total);
  VP_ASSUME(g_data && g_data[g_w] == 0);
  pnm_load_raw(&sc, &in, g_data, &e);
  VP_REACH("raw");
  VP_ASSERT(g_fatals == (g_short ? 1 : 0), "P07 an incomplete file is reported once, a complete one is not");
  VP_ASSERT(g_short || g_rows == g_h, "P07 every row is read");
#ifndef VP_NOVAL
  if (g_w < g_off) VP_ASSERT(g_data[g_w] == g_sc, "P07 every sample is scaled by the maximum value");
#endif
  if (g_w >= g_off + g_n) VP_ASSERT(g_data[g_w] == 0, "P07 missing rows stay black");
}
#endif

#ifdef VP_PBM
/* fread of one packed row into the row buffer; bit g_wb of byte g_wk is the witness pixel's if it is in this row */
unsigned g_col, g_row, g_rowlen, g_wk;
unsigned char *g_buf;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f)
{
  size_t got = nd_u32();
  VP_ASSUME(got <= n && g_off + g_n <= g_total && (g_rows == g_row ? g_w == g_off + g_col : g_rows < g_row ? g_w >= g_off + g_n : g_w < g_off)); /* lemmas row_in_image, witness_row */
  VP_ASSERT(f == (FILE *)&vp_fh && s == 1 && n == g_rowlen && !g_short && g_rows < g_h, "P07 row after row is read");
  __CPROVER_havoc_object(p);
  g_buf = p;
  if (g_rows == g_row && got == n) g_sc = g_buf[g_wk] >> (7 - g_col % 8) & 1 ? 0 : 255;
  g_short = got < n;
  if (!g_short) { g_off += g_n; g_rows++; }
  return got;
}
void h_pbm(void)
{
  PNMScanner sc; PNMInfo in;
  at_exception_type e = at_exception_new(msg, &g_tag);
  sc.fd = (FILE *)&vp_fh; sc.inbuf = NULL; sc.eof = 0;
  in.xres = nd_u16(); in.yres = nd_u16(); in.np = 0; in.maxval = 1; in.asciibody = 0;
  VP_ASSUME(in.xres > 0 && in.yres > 0);
  g_h = in.yres; g_n = in.xres; g_total = g_n * g_h; g_rowlen = (in.xres + 7) / 8;
  g_off = 0; g_rows = 0; g_short = false; g_fatals = 0; g_sc = 0; g_buf = NULL;
  g_row = nd_u16(); g_col = nd_u16(); g_wk = g_col / 8;
  VP_ASSUME(g_row < g_h && g_col < g_n);
  g_w = g_row * g_n + g_col;
  VP_ASSUME(g_w < g_total); /* lemma row_in_image */
  g_data = malloc(g_total);
  VP_ASSUME(g_data && g_data[g_w] == 0);
  pnm_load_rawpbm(&sc, &in, g_data, &e);
  VP_REACH("pbm");
  VP_ASSERT(g_fatals == (g_short ? 1 : 0), "P07 an incomplete file is reported once, a complete one is not");
  VP_ASSERT(g_short || g_rows == g_h, "P07 every row is read");
  VP_ASSERT(g_data[g_w] == (g_row < g_rows ? g_sc : 0), "P07 every bit becomes a black or white pixel; missing ones stay black");
}
#endif

#ifdef VP_SCAN
/* the next character: any, or the end of the file */
unsigned long g_left;
bool g_com, g_tok;
unsigned g_tn, g_tw;
unsigned char g_tc;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f) { VP_ASSERT(0, "P07 characters are read one by one"); return 0; }
void c_getchar(PNMScanner *s)
{
  VP_ASSERT(!s->eof, "P07 nothing is read after the end");
  if (g_tok) {
    VP_ASSERT(!isspace(s->cur) && s->cur != '#', "P07 a token ends before white space and comments");
    if (g_tn == g_tw) g_tc = s->cur;
    g_tn++;
  } else if (g_com) g_com = s->cur != '\n';
  else {
    VP_ASSERT(isspace(s->cur) || s->cur == '#', "P07 only white space and comments are skipped");
    g_com = s->cur == '#';
  }
  if (g_left == 0) s->eof = 1; else { g_left--; s->cur = nd_u8(); }
}
static PNMScanner sc;
static void scanner(void)
{
  sc.fd = NULL; sc.inbuf = NULL; sc.eof = nd_bool(); sc.cur = nd_u8();
  g_left = nd_u64(); g_com = g_tok = false; g_tn = 0; g_tc = 0; g_tw = nd_u32();
  VP_ASSUME(g_left < 0xffffffffffffff00ul);
}
void h_white(void)
{
  scanner();
  pnmscanner_eatwhitespace(&sc);
  VP_REACH("white");
  VP_ASSERT(sc.eof || (!g_com && !isspace(sc.cur) && sc.cur != '#'), "P07 all white space and comments are skipped");
}
/* contract of pnmscanner_eatwhitespace */
void c_white(PNMScanner *s)
{
  VP_ASSERT(!g_tok, "P07 white space is skipped before a token only");
  s->eof = s->eof || nd_bool(); s->cur = nd_u8(); g_left = nd_u64();
  VP_ASSUME(g_left < 0xffffffffffffff00ul && (s->eof || (!isspace(s->cur) && s->cur != '#')));
  g_tok = true;
}
void h_token(void)
{
  static unsigned char buf[BUFLEN];
  unsigned n = nd_u32();
  VP_ASSUME(n >= 1 && n <= BUFLEN && g_tw < n);
  scanner();
  pnmscanner_gettoken(&sc, buf, n);
  VP_REACH("token");
  VP_ASSERT(g_tn < n && buf[g_tn] == 0, "P07 a token fits and ends in a zero");
  VP_ASSERT(g_tw >= g_tn || buf[g_tw] == g_tc, "P07 a token has the characters of the file");
  VP_ASSERT(sc.eof || g_tn + 1 == n || isspace(sc.cur) || sc.cur == '#', "P07 a token is complete");
}
void h_small(void)
{
  unsigned char buf[2];
  buf[1] = 7;
  scanner(); g_tw = 0;
  pnmscanner_getsmalltoken(&sc, buf);
  VP_REACH("small");
  VP_ASSERT(g_tn <= 1 && buf[0] == (g_tn ? g_tc : 0) && buf[1] == 7, "P07 a digit is the next character of the file");
  VP_ASSERT(g_tn == 1 || sc.eof, "P07 a digit is found unless the file ends");
}
#endif
#ifdef VP_CHAR
/* pnmscanner_getchar, with and without a buffer: every character of the file in order */
bool g_seen;
static size_t c_fread(void *p, size_t s, size_t n, FILE *f)
{
  size_t got = nd_u32();
  VP_ASSUME(got <= n);
  VP_ASSERT(s == 1 && n > 0 && f == (FILE *)&vp_fh && __CPROVER_w_ok(p, n), "P07 characters are read into the buffer");
  if (n == 1) { if (got) *(char *)p = nd_u8(); } else __CPROVER_havoc_object(p);
  if (got) g_wv = *(unsigned char *)p;
  g_short = got == 0;
  g_off = got;
  g_seen = true;
  return got;
}
void h_char(void)
{
  PNMScanner *s = malloc(sizeof *s);
  unsigned size = nd_u32(), pos, left;
  unsigned char c;
  bool buffered = nd_bool();
  VP_ASSUME(s != NULL && size > 0 && size <= 1000000);
  s->fd = (FILE *)&vp_fh; s->eof = 0;
  g_seen = g_short = false; g_off = 0; g_w = 0; g_wv = 0;
  if (buffered) {
    s->inbuf = malloc(size); s->inbufsize = size; s->inbufpos = nd_u32(); s->inbufvalidsize = nd_u32();
    VP_ASSUME(s->inbuf && s->inbufpos >= 0 && s->inbufpos <= s->inbufvalidsize && s->inbufvalidsize <= (int)size);
    pos = s->inbufpos; left = s->inbufvalidsize - pos; c = left ? s->inbuf[pos] : 0;
    pnmscanner_getchar(s);
    VP_ASSERT(g_seen == (left == 0), "P07 the buffer is filled when it is used up");
    if (left) VP_ASSERT(!s->eof && (unsigned char)s->cur == c && s->inbufpos == pos + 1, "P07 the next character of the buffer");
    else if (g_short) VP_ASSERT(s->eof, "P07 the end of the file");
    else VP_ASSERT(!s->eof && (unsigned char)s->cur == g_wv && s->inbufpos == 1 && s->inbufvalidsize == g_off, "P07 the first character read");
    VP_ASSERT(s->inbufpos <= s->inbufvalidsize && s->inbufvalidsize <= size && s->inbufsize == size, "P07 the buffer stays consistent");
  } else {
    s->inbuf = NULL;
    pnmscanner_getchar(s);
    VP_ASSERT(g_seen && (g_short ? s->eof : !s->eof && (unsigned char)s->cur == g_wv), "P07 the next character of the file");
  }
  VP_REACH("char");
}
#endif

#ifdef VP_ASCII
/* the next sample: nothing is left, or some token with any value; the file may end right after it.
 * (g_i, g_x, g_b) is the place of the next sample and g_cnt its number (lemma sample_in_image) */
static size_t c_fread(void *p, size_t s, size_t n, FILE *f) { return 0; }
unsigned g_i, g_x, g_b, g_np;
unsigned long g_cnt;
int g_last;
bool g_small;
static void c_token(PNMScanner *s, unsigned char *buf)
{
  VP_ASSERT(!s->eof && !g_short, "P07 nothing is read after the end");
  VP_ASSERT(g_i < g_h, "P07 no more samples are read than the image has");
  VP_ASSUME(g_cnt < g_total); /* lemma sample_in_image */
  buf[1] = 0;
  if (nd_bool()) { s->eof = 1; buf[0] = 0; g_short = true; return; }
  buf[0] = nd_u8(); g_last = nd_u16();
  VP_ASSUME(buf[0] != 0 && g_last <= g_max);
  if (g_cnt == g_w) {
    g_sc = g_np == 0 ? (buf[0] == '0' ? 255 : 0) : buf[0] >= '0' && buf[0] <= '9' ? g_last : 0;
    g_bit = true;
  }
  g_cnt++;
  if (++g_b >= g_np) { g_b = 0; if (++g_x == g_w_) { g_x = 0; g_i++; } }
  s->eof = nd_bool();
}
void c_gettoken(PNMScanner *s, unsigned char *buf, unsigned n) { VP_ASSERT(g_np && n >= 2 && __CPROVER_w_ok(buf, n), "P07 numbers are read into the buffer"); c_token(s, buf); }
void c_getsmalltoken(PNMScanner *s, unsigned char *buf) { VP_ASSERT(!g_np, "P07 only bitmaps are read digit by digit"); c_token(s, buf); }
int c_atoi(const char *s) { return g_last; }
void c_createbuffer(PNMScanner *s, unsigned n) { VP_ASSERT(n > 0, "P07 the buffer has room"); }
void h_ascii(void)
{
  PNMScanner sc; PNMInfo in;
  at_exception_type e = at_exception_new(msg, &g_tag);
  sc.fd = (FILE *)&vp_fh; sc.inbuf = NULL; sc.eof = nd_bool();
  in.xres = nd_u16(); in.yres = nd_u16(); in.np = VP_ASCII; in.maxval = VP_MAX; in.asciibody = 1;
  VP_ASSUME(in.xres > 0 && in.yres > 0);
  g_max = in.maxval; g_h = in.yres; g_w_ = in.xres; g_np = in.np;
  g_cnt = 0; g_i = g_x = g_b = 0; g_short = false; g_fatals = 0; g_sc = 0; g_bit = false;
  g_total = (unsigned long)g_w_ * g_h * (g_np ? g_np : 1);
  g_w = nd_u64();
  VP_ASSUME(g_w < g_total);
  g_data = malloc(g_total);
  VP_ASSUME(g_data && g_data[g_w] == 0);
  pnm_load_ascii(&sc, &in, g_data, &e);
  VP_REACH("ascii");
  VP_ASSERT(g_fatals == (g_i < g_h ? 1 : 0), "P07 an ASCII file is reported exactly when samples are missing, once");
  VP_ASSERT(g_w < g_cnt ? VP_MAX != 255 && VP_MAX != 1 || g_data[g_w] == g_sc : g_data[g_w] == 0, "P07 every sample has its place and value; missing ones stay black");
}
#endif

#ifdef VP_HEAD
/* the header: tokens, bitmap and loaders by contract */
static size_t c_fread(void *p, size_t s, size_t n, FILE *f) { return 0; }
static PNMScanner g_scan;
static int g_k, g_val[4], g_opens, g_closes, g_scans, g_inits, g_loads, g_kind;
static bool g_eof[4], g_noopen;
static unsigned char g_tok[4][4];
static at_bitmap g_bm;
static unsigned char g_bits;
static PNMInfo g_info;
static char g_name;
FILE *c_fopen(const char *n, const char *m) { VP_ASSERT(n == &g_name && m[0] == 'r', "P07 the caller's file is read"); if (g_noopen) return NULL; g_opens++; return (FILE *)&vp_fh; }
int c_fclose(FILE *f) { VP_ASSERT(f == (FILE *)&vp_fh && g_scans == 0, "P07 the file is closed after use"); g_closes++; return 0; }
PNMScanner *c_create(FILE *f) { VP_ASSERT(f == (FILE *)&vp_fh && g_opens == 1 && g_closes == 0, "P07 the open file is scanned"); g_scans++; g_scan.fd = f; g_scan.eof = 0; return &g_scan; }
void c_destroy(PNMScanner *s) { VP_ASSERT(s == &g_scan && g_scans == 1, "P07 the scanner is released once"); g_scans--; }
void c_gettoken(PNMScanner *s, unsigned char *buf, unsigned n)
{
  VP_ASSERT(s == &g_scan && g_scans == 1 && g_k < 4 && n >= 4 && __CPROVER_w_ok(buf, n), "P07 a token is read into the buffer");
  buf[0] = g_tok[g_k][0]; buf[1] = g_tok[g_k][1]; buf[2] = g_tok[g_k][2]; buf[3] = 0;
  s->eof = s->eof || g_eof[g_k];
  g_k++;
}
int c_atoi(const char *s) { return g_k ? g_val[g_k - 1] : 0; }
at_bitmap c_init(unsigned char *area, unsigned short w, unsigned short h, unsigned p)
{
  at_bitmap b;
  b.width = w; b.height = h; b.np = p; b.bitmap = area;
  VP_ASSERT(area == NULL, "P07 an image has its own storage");
  if (w && h && p) { b.bitmap = &g_bits; g_bm = b; g_inits++; }
  return b;
}
static void load(int kind, PNMScanner *s, PNMInfo *i, unsigned char *d)
{
  VP_ASSERT(s == &g_scan && g_scans == 1 && d == &g_bits && g_loads == 0, "P07 the body is read once, into the image");
  g_loads++; g_kind = kind; g_info = *i;
}
static void l_ascii(PNMScanner *s, PNMInfo *i, unsigned char *d, at_exception_type *e) { load(1, s, i, d); }
static void l_raw(PNMScanner *s, PNMInfo *i, unsigned char *d, at_exception_type *e) { load(2, s, i, d); }
static void l_pbm(PNMScanner *s, PNMInfo *i, unsigned char *d, at_exception_type *e) { load(3, s, i, d); }
static bool digit(int k) { return g_tok[k][0] >= '0' && g_tok[k][0] <= '9'; }
void h_head(void)
{
  int i, j, type, np;
  bool bad;
  at_bitmap b;
  for (i = 0; pnm_types[i].name; i++)
    pnm_types[i].loader = pnm_types[i].loader == pnm_load_ascii ? l_ascii : pnm_types[i].loader == pnm_load_raw ? l_raw : pnm_types[i].loader == pnm_load_rawpbm ? l_pbm : pnm_types[i].loader;
  for (i = 0; i < 4; i++) { g_eof[i] = nd_bool(); g_val[i] = nd_int(); for (j = 0; j < 3; j++) g_tok[i][j] = nd_u8(); }
  g_noopen = nd_bool(); g_fatals = 0;
  b = input_pnm_reader(&g_name, NULL, msg, &g_tag, NULL);
  VP_REACH("head");
  type = g_tok[0][1];
  np = type == '3' || type == '6' ? 3 : type == '2' || type == '5' ? 1 : 0;
  bad = g_noopen || g_eof[0] || g_tok[0][0] != 'P' || g_tok[0][2] || type < '1' || type > '6' || g_eof[1] || !digit(1) || g_val[1] <= 0 || g_val[1] > 65535 || g_eof[2] || !digit(2) || g_val[2] <= 0 || g_val[2] > 65535
    || (np && (g_eof[3] || !digit(3) || g_val[3] <= 0 || (type >= '4' && g_val[3] > 255)));
  VP_ASSERT(g_fatals == (bad ? 1 : 0), "P07 a malformed header is reported as a fatal error, exactly once");
  VP_ASSERT(g_opens == (g_noopen ? 0 : 1) && g_closes == g_opens && g_scans == 0, "P07 the file is closed and the scanner released");
  if (bad) VP_ASSERT(b.bitmap == NULL && b.width == 0 && b.height == 0 && g_loads == 0 && g_inits == 0, "P07 a malformed header gives no image");
  else {
    VP_ASSERT(g_inits == 1 && g_loads == 1 && b.bitmap == &g_bits && b.width == g_val[1] && b.height == g_val[2] && b.np == (np ? np : 1), "P07 the image has the stated size");
    VP_ASSERT(g_kind == (type <= '3' ? 1 : type == '4' ? 3 : 2), "P07 the body is read in the stated format");
    VP_ASSERT(g_info.xres == g_val[1] && g_info.yres == g_val[2] && g_info.np == np && g_info.maxval == (np ? g_val[3] : 1), "P07 the body is read with the stated size and maximum");
  }
}
#endif
