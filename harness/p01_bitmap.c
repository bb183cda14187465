/* P01: bitmap objects.  Real code: src/autotrace.c, src/color.c */
#include "vp.h"
#include <assert.h>
static size_t vp_k;             /* arbitrary witness byte */
#ifndef VP_NATIVE
/* contract of libc memcpy, stated for the witness byte */
static void *vp_memcpy(void *d, const void *s, size_t n)
{
  __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy source readable");
  __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy destination writeable");
  __CPROVER_assert(d != NULL && s != NULL, "memcpy arguments not null");
  if (vp_k < n)
    ((unsigned char *)d)[vp_k] = ((const unsigned char *)s)[vp_k];
  return d;
}
#define memcpy vp_memcpy
#endif
#include "autotrace.h"
#include "autotrace.c"
#include "color.c"
bool logging;

#ifdef VP_NATIVE
#define OWNS(p, n) ((n) == 0 || ((p)[0], ((volatile unsigned char *)(p))[(n) - 1], 1))
#else
#define OWNS(p, n) (__CPROVER_OBJECT_SIZE(p) == (n) && __CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_w_ok(p, n))
#endif

static void init_contract(vp_u16 w, vp_u16 h, unsigned np, size_t size)
{
  at_bitmap b = at_bitmap_init(NULL, w, h, np);
  size_t k = nd_u64();
  VP_ASSERT(b.width == w && b.height == h && b.np == np, "P01 a new bitmap has the requested dimensions");
  if (w == 0 || h == 0) {
    VP_ASSERT(b.bitmap == NULL, "P01 an empty bitmap has no storage");
  } else {
    VP_ASSERT(b.bitmap != NULL, "P01 a non-empty bitmap has storage");
    VP_ASSERT(OWNS(b.bitmap, size), "P01 storage is exactly width*height*planes bytes");
    VP_ASSUME(k < size);
    VP_ASSERT(b.bitmap[k] == 0, "P01 a new bitmap is all zero");
  }
  VP_REACH("init");
}

void h_init_full(void)
{
  vp_u16 w = nd_u16(), h = nd_u16();
  unsigned np = nd_bool() ? 1 : 3;
  init_contract(w, h, np, (size_t)w * h * np);
}

void h_init_area(void)
{
  unsigned char px[4];
  vp_u16 w = nd_u16(), h = nd_u16();
  unsigned np = nd_u32();
  at_bitmap b = at_bitmap_init(px, w, h, np);
  VP_ASSERT(b.bitmap == px && b.width == w && b.height == h && b.np == np, "P01 a bitmap made over an existing area uses that area");
  at_bitmap c = b;
  c.width = nd_u16(); c.height = nd_u16(); c.np = nd_u16();
  VP_ASSERT(at_bitmap_get_width(&c) == c.width && at_bitmap_get_height(&c) == c.height && at_bitmap_get_planes(&c) == c.np, "P01 accessors return the stored dimensions");
  VP_REACH("area");
}


/* boundary dimensions; kept symbolic so that storage has a symbolic size */
#define PICK(w, h, np) \
  vp_u16 w = nd_u16(), h = nd_u16(); unsigned np = nd_bool() ? 1 : 3; \
  VP_ASSUME(w == VP_D0 && h == VP_D1)
#ifndef VP_D0
#define VP_D0 0
#define VP_D1 0
#endif

void h_init_dims(void)
{
  PICK(w, h, np);
  init_contract(w, h, np, (size_t)VP_D0 * VP_D1 * np);
}

/* a well-formed bitmap with unconstrained pixels */
static at_bitmap *mk(vp_u16 w, vp_u16 h, unsigned np, size_t size)
{
  at_bitmap *b = malloc(sizeof *b);
  b->width = w; b->height = h; b->np = np;
  b->bitmap = size ? malloc(size) : NULL;
  return b;
}

static void color_contract(vp_u16 w, vp_u16 h, unsigned np, size_t size, unsigned row, unsigned col, size_t at)
{
  at_bitmap *b = mk(w, h, np, size);
  at_color c, d;
  vp_u8 v0 = nd_u8(), v1 = nd_u8(), v2 = nd_u8();
  b->bitmap[at] = v0;
  if (np >= 3) { b->bitmap[at + 1] = v1; b->bitmap[at + 2] = v2; }
  c.r = nd_u8(); c.g = nd_u8(); c.b = nd_u8();
  d = c;
  at_bitmap_get_color(b, row, col, &c);
  if (np >= 3)
    VP_ASSERT(c.r == v0 && c.g == v1 && c.b == v2, "P01 the colour of a pixel is its stored red, green and blue");
  else
    VP_ASSERT(c.r == v0 && c.g == v0 && c.b == v0, "P01 the colour of a grey pixel is its grey level");
  VP_ASSERT(at_bitmap_equal_color(b, row, col, &d) == (d.r == c.r && d.g == c.g && d.b == c.b), "P01 pixel colour comparison agrees with the pixel colour");
  VP_REACH("color");
}

void h_color_dims(void)
{
  PICK(w, h, np);
  unsigned row = nd_u32(), col = nd_u32();
  VP_ASSUME(row < h && col < w);
#ifdef VP_NATIVE
  if ((size_t)w * h > 100000000) { printf("large image skipped natively\n"); return; }
#endif
  size_t size = (size_t)w * h * np;
  VP_ASSUME(size == (size_t)VP_D0 * VP_D1 * np);
  color_contract(w, h, np, size, row, col, ((size_t)row * VP_D0 + col) * np);
}

static void copy_contract(vp_u16 w, vp_u16 h, unsigned np, size_t size)
{
  at_bitmap *b = mk(w, h, np, size), *c;
  size_t k = vp_k = nd_u64();
  vp_u8 v = nd_u8(), v2;
  VP_ASSUME(size == 0 || k < size);
  if (size) b->bitmap[k] = v;
  c = at_bitmap_copy(b);
  VP_ASSERT(c != b && c->width == w && c->height == h && c->np == np, "P01 a copy has the dimensions of the original");
  VP_ASSERT(b->width == w && b->height == h && b->np == np, "P01 copying leaves the original alone");
  if (size) {
    VP_ASSERT(c->bitmap != b->bitmap && OWNS(c->bitmap, size), "P01 a copy owns storage of its own");
    VP_ASSERT(c->bitmap[k] == v, "P01 a copy has the pixels of the original");
    v2 = nd_u8();
    c->bitmap[k] = v2;
    VP_ASSERT(b->bitmap[k] == v, "P01 changing a copy does not change the original");
  } else
    VP_ASSERT(c->bitmap == NULL, "P01 the copy of an empty bitmap is empty");
  at_bitmap_free(c);
  VP_ASSERT(!size || b->bitmap[k] == v, "P01 freeing a copy leaves the original alone");
  at_bitmap_free(b);
  VP_REACH("copy");
}

void h_copy_dims(void)
{
  PICK(w, h, np);
  copy_contract(w, h, np, (size_t)w * h * np);
}

void h_copy_full(void)
{
  vp_u16 w = nd_u16(), h = nd_u16();
  unsigned np = nd_bool() ? 1 : 3;
  copy_contract(w, h, np, (size_t)w * h * np);
}
void h_color_full(void)
{
  vp_u16 w = nd_u16(), h = nd_u16();
  unsigned row = nd_u32(), col = nd_u32();
  unsigned np = nd_bool() ? 1 : 3;
  VP_ASSUME(row < h && col < w);
  size_t size = (size_t)w * h * np, at = (size_t)row * np * w + (size_t)col * np;
  VP_ASSUME(at + np <= size);   /* lemma pixel_in_bounds, discharged over the integers */
  color_contract(w, h, np, size, row, col, at);
}
