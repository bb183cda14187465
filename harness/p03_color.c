/* P03: colours.  Real code: src/color.c */
#include "vp.h"
#ifdef VP_ALL
#include "vp_run.h"
#endif
#ifdef VP_LONG
/* a string of any length: the length is known to the contract of strlen alone */
static unsigned long g_len; static const char *g_str;
unsigned long vp_strlen(const char *p) { VP_ASSERT(p == g_str, "P03 the length asked for is that of the string"); return g_len; }
#include <string.h>
#define strlen vp_strlen
#endif
#include "autotrace.h"
#include "color.c"

static int hexval(char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

/* every string of up to 15 characters, hence every string of the only accepted length */
void h_parse(void)
{
  char s[16];
  int i, v[6];
  unsigned len = 0;
  bool ok;
  for (i = 0; i < 15; i++) s[i] = (char)nd_u8();
  s[15] = 0;
  while (s[len]) len++;
  ok = len == 6;
  for (i = 0; i < 6 && ok; i++) { v[i] = hexval(s[i]); if (v[i] < 0) ok = false; }
  at_color *c = at_color_parse(s, NULL);
  VP_ASSERT((c != NULL) == ok, "P03 exactly the strings of six hexadecimal digits are colors");
  if (c) {
    VP_ASSERT(c->r == 16 * v[0] + v[1] && c->g == 16 * v[2] + v[3] && c->b == 16 * v[4] + v[5], "P03 a parsed color has the written red, green and blue");
    at_color_free(c);
    VP_REACH("parsed");
  }
  VP_REACH("parse");
}

void h_parse_null(void)
{
  VP_ASSERT(at_color_parse(NULL, NULL) == NULL, "P03 no string is no color");
  VP_REACH("null");
}

void h_algebra(void)
{
  at_color a, b, *p, *q;
  a.r = nd_u8(); a.g = nd_u8(); a.b = nd_u8();
  b.r = nd_u8(); b.g = nd_u8(); b.b = nd_u8();
  VP_ASSERT(at_color_equal(&a, &b) == (a.r == b.r && a.g == b.g && a.b == b.b), "P03 colors are equal exactly when all three components are");
  VP_ASSERT(at_color_equal(&a, &a), "P03 a color equals itself");
  p = at_color_new(a.r, a.g, a.b);
  VP_ASSERT(p->r == a.r && p->g == a.g && p->b == a.b, "P03 a new color has the given components");
  q = at_color_copy(p);
  VP_ASSERT(q != p && q->r == a.r && q->g == a.g && q->b == a.b, "P03 a copied color is a separate equal color");
  at_color_set(q, b.r, b.g, b.b);
  VP_ASSERT(q->r == b.r && q->g == b.g && q->b == b.b && p->r == a.r && p->g == a.g && p->b == a.b, "P03 setting a color changes that color only");
  at_color_free(p);
  at_color_free(q);
  VP_ASSERT(at_color_copy(NULL) == NULL, "P03 copying no color yields none");
  VP_REACH("algebra");
}

/* luminance is (30 r + 59 g + 11 b)/100 to the nearest integer */
static void lum(vp_u8 r, vp_u8 g, vp_u8 b)
{
  at_color a;
  int l, w;
  a.r = r; a.g = g; a.b = b;
  l = at_color_luminance(&a);
  w = 30 * r + 59 * g + 11 * b;
  VP_ASSERT(100 * l - w <= 50 && w - 100 * l <= 50, "P03 luminance is the weighted mean of the components, to the nearest integer");
}
#ifdef VP_LONG
void h_parse_long(void)
{
  char *s; int i, v[6]; bool ok;
  g_len = nd_u64(); VP_ASSUME(g_len > 6 && g_len < (1ul << 40));
  s = malloc(g_len + 1); g_str = s;
  for (i = 0; i < 6; i++) VP_ASSUME(s[i] != 0);
  VP_ASSERT(at_color_parse(s, NULL) == NULL, "P03 a longer string is no color");
  free(s);
  VP_REACH("long");
}
#endif
#ifdef VP_ALL
void h_every(void)
{
  int r, g, b;
  for (r = 0; r < 256; r++) for (g = 0; g < 256; g++) { sprintf(vp_case_text, "red %d green %d", r, g); for (b = 0; b < 256; b++) lum(r, g, b); }
  vp_cases = 1 << 24;
  VP_DONE();
}
#endif
#ifdef VP_O
/* one component free, the others at VP_A, VP_B; order chosen by VP_O */
void h_luminance(void)
{
  vp_u8 v = nd_u8();
#if VP_O == 0
  lum(v, VP_A, VP_B);
#elif VP_O == 1
  lum(VP_A, v, VP_B);
#elif VP_O == 2
  lum(VP_A, VP_B, v);
#else
  lum(v, v, v);
#endif
  VP_REACH("lum");
}
#endif
