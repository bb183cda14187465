/* Model of the input side of stdio: one file with arbitrary content.
 * Include before the source file under contract. */
#ifndef VP_FILE_H
#define VP_FILE_H
#include <stdio.h>
#include "vp.h"
#ifndef VP_FMAX
#define VP_FMAX 32
#endif
static vp_u8 vp_fdata[VP_FMAX];
static unsigned long vp_flen, vp_fpos;
static int vp_fopen_count, vp_fopen_fails, vp_feof_flag;
static int vp_handle;
static const char *vp_fname;
#define VP_FH ((FILE *)&vp_handle)

static FILE *vp_fopen(const char *name, const char *mode)
{
  vp_fname = name;
  VP_ASSERT(mode[0] == 'r', "input files are only read");
  if (vp_fopen_fails) return NULL;
  vp_fopen_count++;
  vp_fpos = 0; vp_feof_flag = 0;
  return VP_FH;
}
static int vp_fclose(FILE *f)
{
  VP_ASSERT(f == VP_FH && vp_fopen_count == 1, "an input file is closed once, after it was opened");
  vp_fopen_count--;
  return 0;
}
static size_t vp_fread(void *dst, size_t size, size_t n, FILE *f)
{
  size_t want = size * n, got, i;
  VP_ASSERT(f == VP_FH && vp_fopen_count == 1, "input is read from the open file");
#ifdef VP_CBMC
  VP_ASSERT(want == 0 || __CPROVER_w_ok(dst, want), "the destination of a read holds what is asked for");
#endif
  if (want == 0) return 0;
  got = vp_fpos >= vp_flen ? 0 : vp_flen - vp_fpos;
  if (got >= want) got = want; else vp_feof_flag = 1;
  for (i = 0; i < got; i++) ((vp_u8 *)dst)[i] = vp_fdata[vp_fpos + i];
  vp_fpos += got;
  return size == 1 ? got : got / size;
}
static int vp_fgetc(FILE *f)
{
  VP_ASSERT(f == VP_FH && vp_fopen_count == 1, "input is read from the open file");
  if (vp_fpos >= vp_flen) { vp_feof_flag = 1; return EOF; }
  return vp_fdata[vp_fpos++];
}
static int vp_fseek(FILE *f, long off, int whence)
{
  long to;
  VP_ASSERT(f == VP_FH && vp_fopen_count == 1, "input is read from the open file");
  to = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)vp_fpos : (long)vp_flen;
  if (off > 0 ? to > 0x7fffffffffffffffL - off : to + off < 0) return -1;
  vp_fpos = to + off; vp_feof_flag = 0;
  return 0;
}
static long vp_ftell(FILE *f) { return vp_fpos; }
static int vp_feof(FILE *f) { return vp_feof_flag; }
#define fopen vp_fopen
#define fclose vp_fclose
#define fread vp_fread
#undef fgetc
#undef getc
#define fgetc vp_fgetc
#define getc vp_fgetc
#define fseek vp_fseek
#define ftell vp_ftell
#undef feof
#define feof vp_feof
#define rewind(f) vp_fseek(f, 0, SEEK_SET)
#undef ferror
#define ferror(f) 0

/* the caller's message function */
static int vp_msgs, vp_fatals, vp_msg_tag;
static void vp_msg(const char *m, at_msg_type t, void *d)
{
  VP_ASSERT(d == &vp_msg_tag && m != NULL, "messages go to the caller with the caller's data");
  vp_msgs++;
  if (t == AT_MSG_FATAL) vp_fatals++;
}
#endif
