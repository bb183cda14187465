/* P07, P08, P09 executed: generated PNM, BMP and TGA files read by the real readers. */
#include "autotrace.h"
#include "vp_run.h"
#include <ctype.h>
#include "logreport.c"
#include "color.c"
#include "exception.c"
#include "autotrace.c"
static vp_u8 *file;
static size_t flen, fcap;
static int opened;
static FILE *vp_open(const char *n, const char *m) { opened++; return fmemopen(file, flen, "rb"); }
static int vp_close(FILE *f) { opened--; return fclose(f); }
#define fopen vp_open
#define fclose vp_close
#ifdef VP_PNM
#include "input-pnm.c"
#define READER input_pnm_reader
#define ID "P07 "
#elif defined VP_BMP
#include "input-bmp.c"
#define READER input_bmp_reader
#define ID "P08 "
#else
#include "input-tga.c"
#define READER input_tga_reader
#define ID "P09 "
#endif
#undef fopen
#undef fclose
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; unsigned a = rs >> 16; rs = rs * 1103515245u + 12345u; return (a << 15 ^ rs >> 16) % n; }
static void put(int c) { if (flen == fcap) file = vp_real_realloc(file, fcap = fcap * 2 + 4096); file[flen++] = c; }
static void put2(unsigned v) { put(v & 255); put(v >> 8 & 255); }
static void put4(unsigned v) { put2(v & 0xffff); put2(v >> 16); }
static void text(const char *s) { while (*s) put(*s++); }
static int fatals, warns, tag;
static void msg(const char *m, at_msg_type t, void *d) { if (d != &tag || !m) fatals += 100; if (t == AT_MSG_FATAL) fatals++; else warns++; }
static int W, H;
static vp_u8 *want;    /* expected image, three bytes per pixel */
static vp_u8 *known;   /* 0: no value is called for */
static void sizes(unsigned k)
{
  switch (k % 20) {
  case 0: W = 200 + rnd(600); H = 1 + rnd(4); break;
  case 1: W = 1 + rnd(4); H = 200 + rnd(600); break;
  case 2: W = 100 + rnd(200); H = 100 + rnd(200); break;
  case 3: if (k % 60 == 3) { W = 32760 + rnd(32776); H = 1 + rnd(2); } else if (k % 60 == 23) { W = 1 + rnd(2); H = 32760 + rnd(32776); } else { W = 1000; H = 66; } break;
  default: W = 1 + rnd(20); H = 1 + rnd(20);
  }
  want = vp_real_realloc(want, (size_t)W * H * 3); known = vp_real_realloc(known, (size_t)W * H);
  memset(known, 1, (size_t)W * H);
  flen = 0;
}
static at_bitmap image;
static void read_it(int cutoff)
{
  at_input_opts_type o;
  o.background_color = NULL; o.charcode = 0;
  fatals = warns = 0;
  image = READER("f", &o, msg, &tag, NULL);
  VP_ASSERT(opened == 0, ID "the file is closed again");
  VP_ASSERT(o.background_color == NULL && o.charcode == 0, ID "the options are left alone");
}
static void compare(int np)
{
  long i, j;
  VP_ASSERT(image.width == W && image.height == H && image.np == np && image.bitmap, ID "the image has the stated size and planes");
  for (i = 0; i < (long)W * H; i++) if (known[i]) for (j = 0; j < np; j++) {
    if (image.bitmap[i * np + j] != want[i * 3 + j]) { sprintf(vp_case_text + strlen(vp_case_text), " row %ld column %ld plane %ld: %d instead of %d", i / W, i % W, j, image.bitmap[i * np + j], want[i * 3 + j]); VP_ASSERT(0, ID "every pixel has the stored value"); }
  }
}
static void done(void)
{
  free(image.bitmap);
  VP_ASSERT(vp_blocks == 0, ID "nothing is leaked");
  vp_cases++;
}
#ifndef VP_N
#define VP_N 600
#endif
#ifndef VP_S
#define VP_S 1
#endif
#ifdef VP_PNM
static void space(int end)
{
  static const char sp[] = " \n\t\r\v\f";
  int n = rnd(6) ? 1 : 2 + rnd(3), i;
  if (end) n = 1;
  for (i = 0; i < n; i++) {
    if (!end && rnd(8) == 0) { put('#'); int m = rnd(70); if (rnd(60) == 0) m = 700 + rnd(5000); while (m--) { int c = rnd(40) ? 32 + rnd(95) : 128 + rnd(128); put(c); } put('\n'); }
    put(sp[rnd(6)]);
  }
}
static void num(unsigned v) { char b[20]; if (rnd(30) == 0) text("0"); sprintf(b, "%u", v); text(b); }
static void one(unsigned k)
{
  int t, np, max, big, i, j, n, cut = 0;
  size_t body, need;
  sizes(k);
  t = 1 + rnd(6); np = t % 3 == 0 ? 3 : 1; big = rnd(4);
  max = t % 3 == 1 ? 1 : big ? 255 : t <= 3 && rnd(2) ? 1 + rnd(70000) : 1 + rnd(255);
  n = W * H * np;
  put('P'); put('0' + t);
  space(0); num(W); space(0); num(H);
  if (t % 3 != 1) { space(0); num(max); }
  space(t > 3);
  body = flen;
  for (i = 0; i < n; i++) {
    int v = rnd(9) ? rnd(max + 1) : rnd(2) ? max : 0;
    int e = t % 3 == 1 ? (v ? 0 : 255) : (int)((long)v * 255 / max);
    if (t == 4) {
      if (i % W % 8 == 0) put(0);
      file[flen - 1] |= v << (7 - i % W % 8);
      if (i % W == W - 1) for (j = W % 8; j && j < 8; j++) file[flen - 1] |= rnd(2) << (7 - j);
    } else if (t >= 5) put(v);
    else if (t == 1) { if (rnd(3) == 0) space(0); put('0' + v); }
    else { num(v); if (i + 1 < n || rnd(3)) space(0); }
    if (np == 3) want[i] = e; else want[i * 3] = e;
  }
  need = flen;
  if (rnd(6) == 0 && flen > body) cut = 1 + rnd(rnd(2) ? 4 : flen - body);
  if (t <= 3) cut = 0; /* ASCII files that end early: other goals */
  if (cut > (int)(flen - body)) cut = flen - body;
  if (rnd(5) == 0 && !cut) { if (t <= 3) put('\n'); for (i = rnd(20); i > 0; i--) put(rnd(256)); }
  flen -= cut;
  sprintf(vp_case_text, "generated file %u: P%d %dx%d maximum %d, %d bytes cut", k, t, W, H, max, cut);
  read_it(0);
  VP_ASSERT(fatals == (cut ? 1 : 0) , "P07 a file is reported once exactly when it is cut");
  if (cut) {
    long row = t == 4 ? (W + 7) / 8 : W * np, rows = (flen - body) / row, from = (long)W * rows;
    for (i = 0; i < W * H; i++) if (i >= from) { known[i] = i >= from + W; for (j = 0; j < 3; j++) want[i * 3 + j] = 0; }
  }
  compare(np);
  done();
}
#elif defined VP_BMP
static void one(unsigned k)
{
  static const int hss[] = { 12, 40, 40, 56, 64, 108, 124 }, bpps[] = { 1, 2, 4, 8, 8, 16, 24, 24, 32 };
  static vp_u8 pal[256][3];
  static int ix[1];
  int hs = hss[rnd(7)], bpp = bpps[rnd(9)], comp = 0, top = 0, used = 0, n = 0, i, j, x, y, grey = 0, gap = rnd(3) ? 0 : rnd(40), row, off, np, r, trail = rnd(4) ? 0 : rnd(300), nb[3], sh[3];
  unsigned mask[4] = { 0, 0, 0, 0 }, v;
  vp_u8 *pix;
  sizes(k);
  if (hs == 12 && bpp == 2) bpp = 4;
  if (hs != 12 && rnd(3) == 0) {
    if (bpp == 8) comp = 1; else if (bpp == 4) comp = 2; else if (bpp == 16 || bpp == 32) comp = 3;
  }
  if (hs != 12 && comp != 1 && comp != 2) top = rnd(3) == 0;
  if (bpp <= 8) {
    n = 1 << bpp;
    if (hs != 12 && rnd(2)) n = used = 1 + rnd(1 << bpp);
    if (hs == 12 && gap) gap = 0;
    int kind = rnd(3);
    grey = n > 2;
    for (i = 0; i < n; i++) {
      for (j = 0; j < 3; j++) pal[i][j] = rnd(256);
      if (kind == 0 || (kind == 1 && i != n - 1)) pal[i][1] = pal[i][2] = pal[i][0];
      if (pal[i][0] != pal[i][1] || pal[i][1] != pal[i][2]) grey = 0;
    }
  } else if (comp == 3) {
    int at = 0;
    for (j = 0; j < 3; j++) { nb[j] = 1 + rnd(bpp == 16 ? 5 : 10); sh[j] = at + rnd(bpp == 32 && at < 20 ? 2 : 1); at = sh[j] + nb[j]; mask[j] = ((1u << nb[j]) - 1) << sh[j]; }
    if (rnd(2)) { unsigned m = mask[0]; mask[0] = mask[2]; mask[2] = m; i = nb[0]; nb[0] = nb[2]; nb[2] = i; i = sh[0]; sh[0] = sh[2]; sh[2] = i; }
    if (hs != 40) mask[3] = bpp == 16 ? 0x8000 : 0x80000000u;
  } else for (j = 0; j < 3; j++) { nb[j] = bpp == 16 ? 5 : 8; sh[j] = (2 - j) * nb[j]; }
  np = grey ? 1 : 3;
  put('B'); put('M'); put4(rnd(100000)); put4(rnd(2) ? 0 : rnd(60000));
  off = 14 + hs + (comp == 3 && hs == 40 ? 12 : 0) + n * (hs == 12 ? 3 : 4) + gap;
  put4(off);
  put4(hs);
  if (hs == 12) { put2(W); put2(H); put2(1); put2(bpp); }
  else {
    put4(W); put4(top ? -H : H); put2(1); put2(bpp); put4(comp); put4(rnd(2) ? 0 : rnd(1000000)); put4(rnd(5000)); put4(rnd(5000)); put4(used); put4(rnd(2) ? 0 : n);
    if (hs != 40) { for (i = 0; i < 4; i++) put4(comp == 3 ? mask[i] : rnd(2) ? 0 : rnd(30000)); while (flen < 14 + hs) put(rnd(256)); }
    else if (comp == 3) for (i = 0; i < 3; i++) put4(mask[i]);
  }
  for (i = 0; i < n; i++) { put(pal[i][2]); put(pal[i][1]); put(pal[i][0]); if (hs != 12) put(rnd(256)); }
  for (i = 0; i < gap; i++) put(rnd(256));
  row = (W * bpp + 31) / 32 * 4;
  if (comp == 1 || comp == 2) {
    memset(known, 0, (size_t)W * H);
    int m = 1 << bpp;
    for (y = H - 1, x = 0; y >= 0;) {
#define PX(c) do { int qq = c; known[y * W + x] = 1; for (r = 0; r < 3; r++) want[(y * W + x) * 3 + r] = qq < n ? pal[qq][r] : 0; x++; } while (0)
      int left = W - x, s = rnd(10);
      if (left == 0 || s == 0) { put(0); put(0); y--; x = 0; if (s == 0 && y >= 0 && rnd(3) == 0) break; }
      else if (s == 1) { int dx = rnd(left < 255 ? left + 1 : 256), dy = rnd(y < 3 ? y + 1 : 3); put(0); put(2); put(dx); put(dy); x += dx; y -= dy; }
      else if (s < 6 || left < 3) {
        int c = 1 + rnd(left < 255 ? left : 255), a = rnd(m), b = rnd(m);
        if (rnd(12) == 0) { put(255 < c + 9 ? 255 : c + 9); c = left < c + 9 ? left : c + 9; if (c > 255) c = 255; } else put(c);
        if (bpp == 8) put(a); else put(a << 4 | b);
        for (i = 0; i < c; i++) PX(bpp == 8 || i % 2 == 0 ? a : b);
      } else {
        int c = 3 + rnd((left < 255 ? left : 255) - 2), bytes = bpp == 8 ? c : (c + 1) / 2, q[256];
        put(0); put(c);
        for (i = 0; i < c; i++) q[i] = rnd(m);
        q[c] = rnd(m);
        for (i = 0; i < bytes; i++) put(bpp == 8 ? q[i] : q[2 * i] << 4 | q[2 * i + 1 < 256 ? 2 * i + 1 : 255]);
        if (bytes % 2) put(rnd(256));
        for (i = 0; i < c; i++) PX(q[i]);
      }
    }
    put(0); put(1);
  } else for (y = 0; y < H; y++) {
    int ry = top ? y : H - 1 - y;
    size_t start = flen;
    for (x = 0; x < W; x++) {
      vp_u8 *e = want + ((size_t)ry * W + x) * 3;
      if (bpp <= 8) {
        int q = rnd(1 << bpp);
        if (x * bpp % 8 == 0) put(0);
        file[flen - 1] |= q << (8 - bpp - x * bpp % 8);
        for (r = 0; r < 3; r++) e[r] = q < n ? pal[q][r] : 0;
      } else if (bpp == 24) { for (r = 0; r < 3; r++) e[r] = rnd(256); put(e[2]); put(e[1]); put(e[0]); }
      else {
        v = rnd(0x40000000) << 2 ^ rnd(65536);
        if (bpp == 16) { v &= 0xffff; put2(v); } else put4(v);
        for (r = 0; r < 3; r++) { unsigned mx = (1u << nb[r]) - 1; e[r] = ((v >> sh[r] & mx) * 510 + mx) / (2 * mx); }
      }
    }
    while (flen - start < row) put(rnd(256));
  }
  for (i = 0; i < trail; i++) put(rnd(256));
  sprintf(vp_case_text, "generated file %u: %dx%d header of %d bytes, %d bits, compression %d, %s, %d colors%s, gap %d", k, W, H, hs, bpp, comp, top ? "top-down" : "bottom-up", n, grey ? " (gray)" : "", gap);
  read_it(0);
  VP_ASSERT(fatals == 0, "P08 a well-formed file is accepted");
  compare(np);
  done();
}
#else
static void one(unsigned k)
{
  int type = 1 + rnd(3), rle = rnd(2), flags = rnd(4) << 4, alpha = rnd(3) == 0, b, i, j, r, idl = rnd(3) ? 0 : rnd(256), first = rnd(3) ? 0 : rnd(30), n = 0, ms = 0, p, np3;
  static vp_u8 pal[600][3];
  vp_u8 *raw;
  sizes(k);
  b = type == 1 ? 1 : (type == 2 ? 3 : 1) + alpha;
  if (type == 1) { n = 1 + rnd(rnd(5) ? 40 : 300); ms = alpha ? 32 : 24; }
  put(idl); put(type == 1); put(type + (rle ? 8 : 0)); put2(type == 1 ? first : rnd(100)); put2(n); put(ms); put2(rnd(500)); put2(rnd(500)); put2(W); put2(H); put(b * 8); put(flags | (type != 1 && alpha ? 8 : 0));
  for (i = 0; i < idl; i++) put(rnd(256));
  memset(pal, 0, sizeof pal);
  for (i = 0; i < n; i++) { for (j = 0; j < 3; j++) pal[first + i][j] = rnd(256); put(pal[first + i][2]); put(pal[first + i][1]); put(pal[first + i][0]); if (ms == 32) put(rnd(256)); }
  np3 = W * H;
  raw = vp_real_realloc(NULL, (size_t)np3 * b);
  for (i = 0; i < np3;) {
    int c = 1 + rnd(128), run = rle && rnd(2), over = 0;
    if (!rle || c > np3 - i) { if (rle && rnd(3) == 0) over = 1; else c = rle ? np3 - i : 1; }
    if (c > 128) c = 128;
    if (rle) put((run ? 0x80 : 0) | (c - 1));
    vp_u8 q[4];
    for (p = 0; p < c; p++) {
      if (p == 0 || !run) { for (j = 0; j < b; j++) put(q[j] = rnd(8) ? rnd(256) : rnd(40)); }
      if (i + p < np3) memcpy(raw + (size_t)(i + p) * b, q, b);
    }
    i += c;
  }
  for (i = 0; i < np3; i++) {
    int y = i / W, x = i % W;
    if (!(flags & 0x20)) y = H - 1 - y;
    if (flags & 0x10) x = W - 1 - x;
    vp_u8 *e = want + ((size_t)y * W + x) * 3, *q = raw + (size_t)i * b;
    for (r = 0; r < 3; r++) e[r] = type == 1 ? (q[0] < first + n ? pal[q[0]][r] : 0) : type == 2 ? q[2 - r] : q[0];
  }
  vp_real_free(raw);
  if (rnd(5) == 0) for (i = rnd(40); i > 0; i--) put(rnd(256));
  sprintf(vp_case_text, "generated file %u: type %d%s %dx%d, flags %d, alpha %d, %d colors from %d, id of %d bytes", k, type, rle ? " RLE" : "", W, H, flags, alpha, n, first, idl);
  read_it(0);
  VP_ASSERT(fatals == 0, "P09 a well-formed file is accepted");
  compare(3);
  done();
}
#endif
void h_run(void)
{
  unsigned k;
  for (k = 0; k < VP_N; k++) { rs = (VP_S * 1000003u + k) * 2654435761u; one(k); }
  VP_DONE();
}
