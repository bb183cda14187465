/* P25: EMF records.  fwrite is a byte counter that keeps the first bytes. */
#include "vp.h"
#include "autotrace.h"
#include "spline.h"
const char *at_version(bool l) { return "AB"; }
unsigned g_n;                 /* bytes written */
unsigned char g_b[64];        /* the first ones */
int g_rec, g_size;            /* for whole files: records begun, bytes of the current one left */
unsigned char g_h[4]; unsigned g_hn; unsigned long g_at; unsigned char g_head[64];
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
  VP_ASSERT(s == 1 && n == 1, "bytes are written one by one");
  if (g_n < 64) g_b[g_n] = *(const unsigned char *)p;
  g_n++;
  return 1;
}
#define fwrite vp_fwrite
#include "xstd.h"
#undef XMALLOC
#define XMALLOC(p, n) do { VP_ASSERT((n) <= 16, "blocks are small"); (p) = malloc(16); } while (0)
#ifdef VP_FILES
static spline_type vp_s[NL * NS]; static spline_list_type vp_l[NL];
static spline_type *vp_elt(spline_list_type *l, unsigned n) { VP_ASSERT(n < l->length, "P25 only splines of the path are read"); return &vp_s[NS * (l->data == NULL ? 0 : l->data == vp_s ? 1 : 2) + n]; }
#undef SPLINE_LIST_ARRAY_ELT
#undef SPLINE_LIST_ELT
#define SPLINE_LIST_ARRAY_ELT(a, n) (vp_l[n])
#define SPLINE_LIST_ELT(l, n) (*vp_elt(&(l), n))
#endif
#include "output-emf.c"
#undef fwrite
#define B32(i) (g_b[i] | g_b[(i) + 1] << 8 | g_b[(i) + 2] << 16 | (vp_u32)g_b[(i) + 3] << 24)
static FILE *F = (FILE *)1;
static float co(void) { float f = nd_float(); VP_ASSUME(f >= 0 && f <= 65535); return f; }
static void point(at_real_coord *p) { p->x = co(); p->y = co(); p->z = 0; VP_ASSUME(p->y <= y_offset); }
void h_words(void)
{
  vp_u32 v = nd_u32(); vp_u16 w = nd_u16();
  g_n = 0; F = (FILE *)&g_n;
  VP_ASSERT(write32(F, v) && g_n == 4 && B32(0) == v, "P25 words are written low byte first");
  g_n = 0;
  VP_ASSERT(write16(F, w) && g_n == 2 && (g_b[0] | g_b[1] << 8) == w, "P25 half words are written low byte first");
  VP_REACH("words");
}
#define REC(call0, call, type, words) do { g_n = 0; VP_ASSERT((call0) == 4 * (words), "P25 the size counted for a record is its size"); VP_ASSERT(g_n == 0, "P25 counting writes nothing"); \
  VP_ASSERT((call) == 4 * (words) && g_n == 4 * (words), "P25 a record is as long as counted"); VP_ASSERT(B32(0) == (type) && B32(4) == 4 * (words), "P25 a record holds its type and size"); } while (0)
void h_records(void)
{
  spline_type s; at_real_coord p; int h = nd_int(); vp_u32 c = nd_u32();
  F = (FILE *)&g_n; y_offset = co();
  point(&p); point(&s.v[0]); point(&s.v[1]); point(&s.v[2]); point(&s.v[3]);
  REC(WriteMoveTo(NULL, NULL), WriteMoveTo(F, &p), 27, 4);
  VP_ASSERT(B32(8) == (vp_u32)p.x && B32(12) == (vp_u32)(y_offset - p.y), "P25 a move holds its point");
  REC(WriteLineTo(NULL, NULL), WriteLineTo(F, &s), 54, 4);
  VP_ASSERT(B32(8) == (vp_u32)s.v[3].x && B32(12) == (vp_u32)(y_offset - s.v[3].y), "P25 a line holds its end point");
  REC(WriteSetPolyFillMode(NULL), WriteSetPolyFillMode(F), 19, 3);
  VP_ASSERT(B32(8) == 1, "P25 shapes are filled by alternation");
  REC(WriteBeginPath(NULL), WriteBeginPath(F), 59, 2);
  REC(WriteEndPath(NULL), WriteEndPath(F), 60, 2);
  REC(WriteFillPath(NULL), WriteFillPath(F), 62, 6);
  REC(WriteStrokePath(NULL), WriteStrokePath(F), 64, 6);
  REC(WriteCreateSolidPen(NULL, 0, 0), WriteCreateSolidPen(F, h, c), 38, 7);
  VP_ASSERT(B32(8) == (vp_u32)h && B32(24) == c, "P25 a pen has its number and colour");
  REC(WriteCreateSolidBrush(NULL, 0, 0), WriteCreateSolidBrush(F, h, c), 39, 6);
  VP_ASSERT(B32(8) == (vp_u32)h && B32(16) == c, "P25 a brush has its number and colour");
  REC(WriteSelectObject(NULL, 0), WriteSelectObject(F, h), 37, 3);
  VP_ASSERT(B32(8) == (vp_u32)h, "P25 an object is selected by its number");
  REC(WriteDeleteObject(NULL, 0), WriteDeleteObject(F, h), 40, 3);
  VP_ASSERT(B32(8) == (vp_u32)h, "P25 an object is deleted by its number");
  REC(WriteEndOfMetafile(NULL), WriteEndOfMetafile(F), 14, 5);
  VP_ASSERT(B32(8) == 0 && B32(12) == 16 && B32(16) == 20, "P25 the last record ends with its size");
  VP_REACH("records");
}
/* any number of curves in one record, any number of lines */
void h_curves(void)
{
  int n = nd_int(); spline_type *s; int r;
  VP_ASSUME(n >= 1 && n <= 100000);
  s = malloc(n * sizeof *s); F = (FILE *)&g_n; g_n = 0;
  VP_ASSERT(WritePolyBezierTo16(NULL, NULL, n) == 28 + 12 * n && g_n == 0, "P25 the size counted for a record is its size");
  r = WritePolyBezierTo16(F, s, n);
  VP_ASSERT(r == 28 + 12 * n && g_n == (unsigned)r, "P25 a record is as long as counted");
  VP_REACH("curves");
}
void h_lines(void)
{
  int n = nd_int(); spline_type *s; int r;
  VP_ASSUME(n >= 1 && n <= 100000);
  s = malloc(n * sizeof *s); F = (FILE *)&g_n; g_n = 0;
  VP_ASSERT(MyWritePolyLineTo(NULL, NULL, n) == 16 * n && g_n == 0, "P25 the size counted for lines is their size");
  r = MyWritePolyLineTo(F, s, n);
  VP_ASSERT(r == 16 * n && g_n == (unsigned)r, "P25 lines are as long as counted");
  VP_REACH("lines");
}
/* the first record: any name up to 6 characters */
void h_header(void)
{
  char name[8]; unsigned n = nd_u8(), i; int r, fs = nd_int(), nr = nd_int(), nh = nd_int(), w = nd_u16(), h = nd_u16();
  VP_ASSUME(n <= 6);
  for (i = 0; i < 8; i++) { name[i] = (char)nd_u8(); VP_ASSUME(i >= n || name[i] != 0); if (i == n) name[i] = 0; }
  F = (FILE *)&g_n; g_n = 0;
  r = WriteHeader(NULL, name, 0, 0, 0, 0, 0);
  VP_ASSERT(g_n == 0 && r % 4 == 0, "P25 counting writes nothing");
  VP_ASSERT(WriteHeader(F, name, w, h, fs, nr, nh) == r && g_n == (unsigned)r && B32(4) == (vp_u32)r, "P25 a record is as long as counted");
  VP_ASSERT(B32(0) == 1 && B32(16) == (vp_u32)w && B32(20) == (vp_u32)h && B32(40) == 0x464D4520 && B32(48) == (vp_u32)fs && B32(52) == (vp_u32)nr && (g_b[56] | g_b[57] << 8) == (nh & 65535), "P25 the first record holds the size of picture and file and the numbers of records and objects");
  VP_REACH("header");
}
/* whole files: the counted totals are those written */
/* by contract (proved above): a call with a file writes one record of the size returned, without one it writes nothing */
int g_recs, g_fs, g_nr;
static int one(FILE *f, int words) { if (f) { g_recs++; g_n += 4 * words; } return 4 * words; }
int vp_lines(FILE *f, spline_type *s, int n) { if (f) { VP_ASSERT(n >= 1, "P25 there are lines to write"); g_recs += n; g_n += 16 * n; } return 16 * n; }
int vp_curves(FILE *f, spline_type *s, int n) { if (f) { VP_ASSERT(n >= 1, "P25 there are curves to write"); g_recs++; g_n += 28 + 12 * n; } return 28 + 12 * n; }
int vp_move(FILE *f, at_real_coord *p) { return one(f, 4); }
int vp_begin(FILE *f) { return one(f, 2); }
int vp_end(FILE *f) { return one(f, 2); }
int vp_fill(FILE *f) { return one(f, 6); }
int vp_stroke(FILE *f) { return one(f, 6); }
int vp_mode(FILE *f) { return one(f, 3); }
int vp_eof(FILE *f) { return one(f, 5); }
int vp_pen(FILE *f, int h, uint32_t c) { return one(f, 7); }
int vp_brush(FILE *f, int h, uint32_t c) { return one(f, 6); }
int vp_select(FILE *f, int h) { return one(f, 3); }
int vp_delete(FILE *f, int h) { return one(f, 3); }
int vp_head(FILE *f, char *n, int w, int h, int fs, int nr, int nh) { if (f) { g_fs = fs; g_nr = nr; } return one(f, 30); }
static uint32_t g_table[2];
int vp_search(EMFColorList *h, uint32_t c) { return nd_bool(); }
void vp_add(EMFColorList **h, uint32_t c) { }
void vp_table(EMFColorList **h, uint32_t **t, int n) { *t = malloc(8); (*t)[0] = nd_u32(); (*t)[1] = nd_u32(); }
int vp_lookup(uint32_t c, uint32_t *t, int n) { return nd_bool(); }
#ifdef VP_FILES
void h_files(void)
{
  EMFStats st; spline_list_array_type a; unsigned i;
  a.data = vp_l; a.length = nd_u8() % (NL + 1); a.centerline = nd_bool();
  for (i = 0; i < NL; i++) {
    vp_l[i].data = i ? &vp_s[i - 1] : NULL; vp_l[i].length = 1 + nd_u8() % NS; vp_l[i].open = nd_bool();
    vp_l[i].color.r = nd_u8(); vp_l[i].color.g = nd_u8(); vp_l[i].color.b = nd_u8();
  }
  for (i = 0; i < NL * NS; i++) vp_s[i].degree = nd_bool() ? LINEARTYPE : CUBICTYPE;
  color_list = NULL; g_n = 0; g_recs = 0; F = (FILE *)&g_n;
  GetEmfStats(&st, "n", a);
  VP_ASSERT(g_n == 0, "P25 counting writes nothing");
  OutputEmf(F, &st, "n", 10, 10, a);
  VP_REACH("file");
  VP_ASSERT(g_n == (unsigned)st.filesize && g_fs == (int)g_n, "P25 the header holds the size of the file");
  VP_ASSERT(g_nr == g_recs, "P25 the header holds the number of records");
}
#endif
