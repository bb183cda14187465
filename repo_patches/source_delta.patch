From 3fe6a399a98b573254c3b0ae26ecaeab1d324c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:44 +0000
Subject: [PATCH 01/65] fix: compute bitmap sizes and pixel offsets in size_t

width * height * planes was evaluated in 32 bits, so large bitmaps got a
too small buffer and wrong pixel addresses.  Copying an empty bitmap no
longer passes NULL to memcpy.
---
 src/autotrace.c | 7 ++++---
 src/input.h     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..c5951c2 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -154,7 +154,8 @@ at_bitmap *at_bitmap_copy(const at_bitmap * src)
   planes = at_bitmap_get_planes(src);
 
   dist = at_bitmap_new(width, height, planes);
-  memcpy(dist->bitmap, src->bitmap, width * height * planes * sizeof(unsigned char));
+  if (dist->bitmap)
+    memcpy(dist->bitmap, src->bitmap, (size_t) width * height * planes * sizeof(unsigned char));
   return dist;
 }
 
@@ -165,10 +166,10 @@ at_bitmap at_bitmap_init(unsigned char *area, unsigned short width, unsigned sho
   if (area)
     bitmap.bitmap = area;
   else {
-    if (0 == (width * height))
+    if (0 == width || 0 == height)
       bitmap.bitmap = NULL;
     else
-      XCALLOC(bitmap.bitmap, width * height * planes * sizeof(unsigned char));
+      XCALLOC(bitmap.bitmap, (size_t) width * height * planes * sizeof(unsigned char));
   }
 
   bitmap.width = width;
diff --git a/src/input.h b/src/input.h
index 30db46e..a65b3b6 100644
--- a/src/input.h
+++ b/src/input.h
@@ -85,8 +85,8 @@ extern void printInputFormatInfo(FILE *file);
 
 /* This is the pixel at [ROW,COL].  */
 #define AT_BITMAP_PIXEL(b, row, col)					\
-  ((AT_BITMAP_BITS (b) + (row) * AT_BITMAP_PLANES (b) * AT_BITMAP_WIDTH (b)	\
-        + (col) * AT_BITMAP_PLANES(b)))
+  ((AT_BITMAP_BITS (b) + (size_t) (row) * AT_BITMAP_PLANES (b) * AT_BITMAP_WIDTH (b)	\
+        + (size_t) (col) * AT_BITMAP_PLANES(b)))
 
 /* at_ prefix removed version */
 #define AT_BITMAP_VALID_PIXEL(b, row, col)					\
-- 
2.43.0


From 11cb818d064aad781edff6356b87fe57c39fc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:19 +0000
Subject: [PATCH 02/65] fix: reject color strings with non-hexadecimal
 characters

at_color_parse folded an invalid digit into the result instead of
returning NULL.
---
 src/color.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..2d084f4 100644
--- a/src/color.c
+++ b/src/color.c
@@ -60,7 +60,10 @@ at_color *at_color_parse(const char *string, struct GError **err) {
   }
 
   for (i = 0; i < 6; i++) {
-    c[i] = hctoi(string[i], &local_err);
+    unsigned int digit = hctoi(string[i], &local_err);
+    if (digit > 15)
+      return NULL;
+    c[i] = (unsigned char)digit;
     if (local_err != NULL) {
       if (err != NULL) {
         *err = local_err;
-- 
2.43.0


From 042d5857c486cc62beb898d6af8bd0373bcc2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:19 +0000
Subject: [PATCH 03/65] fix: keep a fatal exception fatal after a later warning

A warning raised after a fatal error replaced the recorded type, so the
caller no longer saw the fatal error.
---
 src/exception.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exception.c b/src/exception.c
index eb05cd9..6dd8652 100644
--- a/src/exception.c
+++ b/src/exception.c
@@ -31,7 +31,8 @@ void at_exception_warning(at_exception_type *exception, const char *message)
 {
   if (!exception)
     return;
-  exception->msg_type = AT_MSG_WARNING;
+  if (exception->msg_type != AT_MSG_FATAL)
+    exception->msg_type = AT_MSG_WARNING;
   if (exception->client_func) {
     exception->client_func(message, AT_MSG_WARNING, exception->client_data);
   }
-- 
2.43.0


From c50148ef9576fa7d61a6587eab6f7218426fca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:19 +0000
Subject: [PATCH 04/65] fix: release the array of spline lists

free_spline_list_array freed the lists but leaked the array holding them.
---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From f6acad055ae445a02dd145e59d5200598eab6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:19 +0000
Subject: [PATCH 05/65] fix: avoid freeing the background color twice after a
 fatal fit error

fitted_splines released the color and left the pointer in the result,
which at_splines_free releases again.
---
 src/fit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..09d7fbc 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -151,6 +151,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     if (at_exception_got_fatal(exception)) {
       if (char_splines.background_color)
         at_color_free(char_splines.background_color);
+      char_splines.background_color = NULL;
       goto cleanup;
     }
     curve_list_splines.clockwise = curves.clockwise;
-- 
2.43.0


From 4832741d2e22e951e9275063a11890deb44c37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:19 +0000
Subject: [PATCH 06/65] fix: release the pixel outlines when tracing is
 canceled before fitting

A cancel request first seen after the outlines were found leaked them.
---
 src/autotrace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index c5951c2..38eb6bb 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -295,7 +295,7 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
-- 
2.43.0


From 230c2dc08025656dd93b8da5ae33878e0728990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 07/65] fix: keep room for the terminator in PNM tokens

---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..e9ddbab 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -386,7 +386,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr + 1 < bufsize)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
-- 
2.43.0


From 9457de2c5bbcf77cda41ed656d17267ea8be88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 08/65] fix: reject PNM files with an unknown magic number

---
 src/input-pnm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index e9ddbab..e92318b 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -129,6 +129,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
 
   /* allocate the necessary structures */
   pnminfo = (PNMInfo *) malloc(sizeof(PNMInfo));
+  pnminfo->loader = NULL;
 
   scan = NULL;
   /* set error handling */
-- 
2.43.0


From c106e77a4d083fb12ecb3d6c4dc25065681cba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 09/65] fix: reject PNM images larger than a bitmap can hold

---
 src/input-pnm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index e92318b..3486bba 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -33,6 +33,7 @@
 #include "logreport.h"
 #include "xstd.h"
 
+#include <limits.h>
 #include <math.h>
 #include <ctype.h>
 
@@ -170,7 +171,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->xres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->xres <= 0) {
+  if (pnminfo->xres <= 0 || pnminfo->xres > USHRT_MAX) {
     LOG("pnm filter: invalid xres while loading\n");
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
@@ -183,7 +184,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->yres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->yres <= 0) {
+  if (pnminfo->yres <= 0 || pnminfo->yres > USHRT_MAX) {
     LOG("pnm filter: invalid yres while loading\n");
     at_exception_fatal(&excep, "pnm filter: invalid yres while loading");
     goto cleanup;
-- 
2.43.0


From 3ae65cc77bcf7ab6590057ee1ee56d5d27446069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 10/65] fix: do not lose the last character of an ASCII PNM
 file

---
 src/input-pnm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 3486bba..7df7a6a 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -413,14 +413,14 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
     }
+    if (s->inbufvalidsize > 0)
+      s->cur = s->inbuf[s->inbufpos++];
+    else
+      s->eof = 1;
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From 86282249d7ff90669e077ba7162fa173cd5708c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 11/65] fix: do not invert ASCII PGM and PPM images with a
 maxval of 1

---
 src/input-pnm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 7df7a6a..231f892 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -260,8 +260,11 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
           break;
         case 1:
-          d[b] = (*buf == '0') ? 0xff : 0x00;
-          break;
+          if (info->np == 0) {
+            d[b] = (*buf == '0') ? 0xff : 0x00;
+            break;
+          }
+          /* fall through */
         default:
           d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
                                           / (double)(info->maxval)));
-- 
2.43.0


From 22d7c6eb0f5e6d46c7c7ee8ceb2a7f56465b5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 12/65] fix: report ASCII PNM files whose last sample is
 missing

---
 src/input-pnm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 231f892..51b63a6 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -255,6 +255,11 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
         else
           pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
+        if (*buf == '\0' && pnmscanner_eof(scan)) {
+          LOG("pnm filter: premature end of file\n");
+          at_exception_fatal(excep, "pnm filter: premature end of file");
+          return;
+        }
         switch (info->maxval) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
@@ -403,6 +408,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
  */
 static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 {
+  *buf = '\0';
   pnmscanner_eatwhitespace(s);
   if (!(s->eof) && !isspace(s->cur) && (s->cur != '#')) {
     *buf = s->cur;
-- 
2.43.0


From 324d1f4d7251bdc95d457acc2d1ad047b151581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 13/65] fix: make room for the BMP version 4 and 5 headers

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..91e7c8b 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -136,7 +136,7 @@ static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, in
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
+  unsigned char buffer[124];
   int ColormapSize, rowbytes, Maps, Grey;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
-- 
2.43.0


From 00682c8cc49db027d54d773032855b8b7d8ea651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 14/65] fix: read the three BMP channel masks as 32-bit values

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 91e7c8b..b5277df 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -259,7 +259,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 3 * 4))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
-- 
2.43.0


From 1cc931690954c221a0b38fcac0d83744d4d40316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 15/65] fix: accept BMP files with a color map

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index b5277df..cd30ef7 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -492,6 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
+  return 1;
 cleanup:
   return 0;
 }
-- 
2.43.0


From 883487ade50670ca6e701e9dc71edab7e7ffa0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 16/65] fix: do not treat true color BMP files as gray at
 random

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index cd30ef7..fc420ce 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,7 +137,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[124];
-  int ColormapSize, rowbytes, Maps, Grey;
+  int ColormapSize, rowbytes, Maps, Grey = 0;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
-- 
2.43.0


From e08e479f5ad2fa8cd2439e5801b55a171bbbf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 17/65] fix: ignore data after the last row of a 24-bit BMP
 file

---
 src/input-bmp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index fc420ce..8de3bd5 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -632,6 +632,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
+
+          if (ypos == 0)
+            break;
+
           --ypos; /* next line */
         }
 	}
-- 
2.43.0


From d10795fbf53f3006ae9261cc2efc94b54e2cb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 18/65] fix: do not reserve room for the ignored BMP alpha
 channel

---
 src/input-bmp.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 8de3bd5..70cd0d8 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -566,14 +566,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   if (bpp >= 16) /* color image */
     {
       XMALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
+	  /* the alpha channel is not stored */
+	  channels = 3;
   }
   else if (Grey) /* Grey image */
     {
-- 
2.43.0


From 6cf3d3bc03ce46b9306b316632102956580984c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 19/65] fix: map gray BMP pixels through the color map only
 once

---
 src/input-bmp.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 70cd0d8..8afc1d1 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -671,8 +671,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + (ypos * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
@@ -719,8 +717,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			          {
 			            temp = dest + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -755,8 +751,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 					temp =
 						dest + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
-- 
2.43.0


From 81d7749490c9f5bacbaf398db9508d49ea0c3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 20/65] fix: return the decoded pixels of RLE compressed BMP
 files

---
 src/input-bmp.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 8afc1d1..6dac740 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -544,7 +544,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int xpos = 0;
   int ypos = 0;
   unsigned char * image;
-  unsigned char *dest, *temp, *row_buf;
+  unsigned char *temp, *row_buf;
   long rowstride, channels;
   unsigned short rgb;
   int i, i_max, j;
@@ -563,27 +563,26 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
 
+  /* use XCALLOC so that unspecified pixels in RLE and truncated
+	 bitmaps show up as the zeroth element in the palette.
+  */
   if (bpp >= 16) /* color image */
     {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  /* the alpha channel is not stored */
 	  channels = 3;
   }
   else if (Grey) /* Grey image */
     {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
   else /* indexed image */
 	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
 
-  /* use XCALLOC to initialize the dest row_buf so that unspecified
-	 pixels in RLE bitmaps show up as the zeroth element in the palette.
-  */
-  XCALLOC(dest, width * height * channels);
   XMALLOC (row_buf, rowbytes); 
   rowstride = width * channels;
 
@@ -715,7 +714,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			             ((unsigned char) j < (unsigned char) row_buf[0]));
 			             i++, xpos++, j++)
 			          {
-			            temp = dest + (ypos * rowstride) + (xpos * channels);
+			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
 			          }
 		      }
@@ -749,7 +748,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				while ((i <= i_max) && (xpos < width))
 				{
 					temp =
-						dest + (ypos * rowstride) + (xpos * channels);
+						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
 					i++;
 					xpos++;
@@ -816,7 +815,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
   free (row_buf);
-  free(dest);
   return image;
 }
 
-- 
2.43.0


From c3ce5b793299969400ba3e89d150efee5e2e25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 21/65] fix: decode BMP files with two bits per pixel

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 6dac740..9756260 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -660,6 +660,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
-- 
2.43.0


From 18714899ce1b2c3d3238dc62e9cfc3ce5b77118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 22/65] fix: cope with empty and full BMP channel masks

---
 src/input-bmp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9756260..38dca46 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -526,8 +526,9 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		/* an empty mask makes a channel that is always zero */
+		masks[i].shiftin = nbits ? offset : 0;
+		masks[i].max_value = nbits ? (float)((1UL << nbits) - 1) : (float)1.0;
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
-- 
2.43.0


From 984da05ec376dfe8212622ff30b829c930cc2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 23/65] fix: use the default BMP channel masks unless the file
 declares its own

---
 src/input-bmp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 38dca46..dd02df1 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -230,7 +230,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[2] = 0;
     Bitmap_Head.masks[3] = 0;
 
-    memset(masks, 0, sizeof(masks));
+    setMasksDefault(Bitmap_Head.biBitCnt, masks);
     Maps = 3;
   } else if (Bitmap_File_Head.biSize == 40) { /* Windows 3.x */
     if (!ReadOK(fd, buffer, 36))
@@ -313,7 +313,10 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  if (Bitmap_Head.biCompr == BI_BITFIELDS)
+		  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  else
+		  setMasksDefault(Bitmap_Head.biBitCnt, masks);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
-- 
2.43.0


From e596a9066574c1d86d7b6c4691d3c4e00ad8a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 24/65] fix: reject BMP images larger than a bitmap can hold

---
 src/input-bmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index dd02df1..b8ae346 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -27,6 +27,7 @@
 
 #include "types.h"
 #include "bitmap.h"
+#include <limits.h>
 #include "logreport.h"
 #include "xstd.h"
 #include "input-bmp.h"
@@ -436,7 +437,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* use divisions in comparisons to avoid type overflows */
 
   if (((unsigned long)Bitmap_Head.biWidth) > (unsigned int)0x7fffffff / Bitmap_Head.biBitCnt ||
-	  ((unsigned long)Bitmap_Head.biWidth) > ((unsigned int)0x7fffffff /abs(Bitmap_Head.biHeight)) / 4)
+	  ((unsigned long)Bitmap_Head.biWidth) > ((unsigned int)0x7fffffff /abs(Bitmap_Head.biHeight)) / 4 ||
+	  Bitmap_Head.biWidth > USHRT_MAX || abs(Bitmap_Head.biHeight) > USHRT_MAX)
   {
 	  LOG("%s is not a valid BMP file", filename);
 	  at_exception_fatal(&exp, "bmp: invalid input file");
-- 
2.43.0


From 79919dd7b62299e393fd9556c3ffc2c3098d1cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 25/65] fix: make BMP pixels outside the color map black

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index b8ae346..587b4a7 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -139,7 +139,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   FILE *fd;
   unsigned char buffer[124];
   int ColormapSize, rowbytes, Maps, Grey = 0;
-  unsigned char ColorMap[256][3];
+  unsigned char ColorMap[256][3] = { { 0 } };
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
   at_exception_type exp = at_exception_new(msg_func, msg_data);
-- 
2.43.0


From 426ac750a43a539f30eacb479cc630523b5c04ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 26/65] fix: read BMP files whose rows go from top to bottom

---
 src/input-bmp.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 587b4a7..07eb140 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -132,13 +132,14 @@ static long ToL(unsigned char *);
 static short ToS(unsigned char *);
 static int ReadColorMap(FILE *, unsigned char[256][3], int, int, int *, at_exception_type *);
 static int ReadChannelMasks(unsigned long *, Bitmap_Channel *, unsigned int);
+static void FlipRows(unsigned char *, int, int);
 static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, int, int, int, int, const Bitmap_Channel *, at_exception_type *);
 
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
   unsigned char buffer[124];
-  int ColormapSize, rowbytes, Maps, Grey = 0;
+  int ColormapSize, rowbytes, height, Maps, Grey = 0;
   unsigned char ColorMap[256][3] = { { 0 } };
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
@@ -470,8 +471,12 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   fseek(fd, Bitmap_File_Head.bfOffs, SEEK_SET);
   
   /* Get the Image and return the ID or -1 on error */
-  image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
-  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
+  height = abs(Bitmap_Head.biHeight);
+  image_storage = ReadImage(fd, Bitmap_Head.biWidth, height, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  /* a negative height means that the rows go from top to bottom */
+  if (image_storage && (int)Bitmap_Head.biHeight < 0)
+    FlipRows(image_storage, Bitmap_Head.biWidth * (Grey ? 1 : 3), height);
+  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)height, Grey ? 1 : 3);
 cleanup:
   fclose(fd);
   return (image);
@@ -544,6 +549,20 @@ ReadChannelMasks(unsigned long       *tmp,
 	return 0;
 }
 
+/* Turn an image upside down. */
+static void FlipRows(unsigned char *image, int rowstride, int height)
+{
+  unsigned char *top = image, *bottom = image + (long)rowstride * (height - 1), v;
+  int x;
+
+  for (; top < bottom; top += rowstride, bottom -= rowstride)
+    for (x = 0; x < rowstride; x++) {
+      v = top[x];
+      top[x] = bottom[x];
+      bottom[x] = v;
+    }
+}
+
 static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char cmap[256][3], int ncols, int bpp, int compression, int rowbytes, int Grey, const Bitmap_Channel * masks, at_exception_type * exp)
 {
   unsigned char v, n;
-- 
2.43.0


From b24a7de084b671ac696467daeaaf4738657d0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:52 +0000
Subject: [PATCH 27/65] fix: avoid a signed overflow in BMP header fields

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 07eb140..1d45ee3 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -846,7 +846,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
 static long ToL(unsigned char *puffer)
 {
-  return (puffer[0] | puffer[1] << 8 | puffer[2] << 16 | puffer[3] << 24);
+  return (int)(puffer[0] | puffer[1] << 8 | puffer[2] << 16 | (unsigned int)puffer[3] << 24);
 }
 
 static short ToS(unsigned char *puffer)
-- 
2.43.0


From 5bb1d232226313cc29f8411553d9d6b44e884a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 28/65] fix: give up on TGA files that cannot be opened

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..2593127 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -117,6 +117,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
   /* Check the footer. */
-- 
2.43.0


From c4d373d5152e3de50c63bb6ed9043dcedd0d40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 29/65] fix: accept small TGA files without a footer

---
 src/input-tga.c | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2593127..4334e6a 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -120,16 +111,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
-
+  /* The footer is optional and holds nothing we need. */
   if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
     at_exception_fatal(&exp, "TGA: Cannot read header");
-- 
2.43.0


From c1389aa12c6ba11f3141568dbfe6852f84e8fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 30/65] fix: keep no TGA run-length state from one image to the
 next

---
 src/input-tga.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 4334e6a..f9a9aef 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -142,9 +142,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char *statebuf = 0;
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -176,7 +176,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     /* Decode the next packet. */
     count = fgetc(fp);
     if (count == EOF) {
-      return j / datasize;
+      nelems = j / datasize;
+      break;
     }
 
     /* Scale the byte length to the size of the data. */
@@ -195,7 +196,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     if (count & RLE_PACKETSIZE) {
       /* Fill the buffer with the next value. */
       if (fread(p, datasize, 1, fp) != 1) {
-        return j / datasize;
+        nelems = j / datasize;
+        break;
       }
 
       /* Optimized case for single-byte encoded data. */
@@ -207,7 +209,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     } else {
       /* Read in the buffer. */
       if (fread(p, bytes, 1, fp) != 1) {
-        return j / datasize;
+        nelems = j / datasize;
+        break;
       }
     }
 
@@ -218,6 +221,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       j += bytes;
   }
 
+  free(statebuf);
   return nelems;
 }
 
-- 
2.43.0


From b04b7b4fd9110a6be85d82a8cc6e2f848b4cf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 31/65] fix: turn TGA images around that are reversed in both
 directions

---
 src/input-tga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index f9a9aef..29e0d88 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -479,11 +479,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
-- 
2.43.0


From 27e74090f16fa8c09e2360a801daf4f63af773af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 32/65] fix: reject TGA images without pixels or too large to
 decode

---
 src/input-tga.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 29e0d88..a752639 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include <sys/param.h>
 /* #include <unistd.h> */
 
@@ -341,6 +342,12 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
+  if (width == 0 || height == 0 || width > INT_MAX / 4 / height) {
+    LOG("TGA: invalid image size %d x %d\n", width, height);
+    at_exception_fatal(exp, "TGA: invalid image size");
+    return image;
+  }
+
   /* Check that we have a color map only when we need it. */
   if (itype == INDEXED) {
     if (hdr->colorMapType != 1) {
-- 
2.43.0


From a2a34df59e6b43a9c12bbb4074f9f2c25af729e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 33/65] fix: release the TGA color map after a read error

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index a752639..4fb54c9 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -387,6 +387,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From 8790098eb62384fa72404003bdf5506a72536259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 34/65] fix: make TGA pixels outside the color map black

---
 src/input-tga.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 4fb54c9..cec49f0 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -233,7 +233,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   unsigned char *alphas = NULL;
 
   unsigned short width, height, bpp, abpp, pbpp, nalphas;
-  int j, k;
+  int j, k, colors = 0;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
   int itype, dtype;
@@ -364,7 +364,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
-    int index, colors;
+    int index;
     unsigned int length;
 
     index = (hdr->colorMapIndexHi << 8) | hdr->colorMapIndexLo;
@@ -526,9 +526,9 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     for (ypos = 0; ypos < height; ypos++) {
       for (xpos = 0; xpos < width; xpos++) {
         index = *temp2++;
-        *temp3++ = cmap[3 * index + 0];
-        *temp3++ = cmap[3 * index + 1];
-        *temp3++ = cmap[3 * index + 2];
+        *temp3++ = index < colors ? cmap[3 * index + 0] : 0;
+        *temp3++ = index < colors ? cmap[3 * index + 1] : 0;
+        *temp3++ = index < colors ? cmap[3 * index + 2] : 0;
       }
     }
     free(temp);
-- 
2.43.0


From fcf26478554e7a956bb9e90f1c08fb8a820f5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 35/65] fix: decode TGA pixels with an alpha channel

---
 src/input-tga.c | 65 +++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index cec49f0..e415f46 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -230,9 +230,9 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
+  unsigned char *data;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k, colors = 0;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
@@ -361,7 +361,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index;
@@ -391,29 +390,15 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
-      /* Swap from BGR to RGB. */
+      /* Swap from BGR to RGB, leaving out an alpha value. */
       unsigned char tmp = cmap[j];
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
 
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
-
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
     pbpp = 8;
@@ -440,11 +425,13 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   npels = width * height;
   bsize = wbytes * height;
 
+  data = (unsigned char *)malloc(npels * bpp);
+
   /* Suck in the data one height at a time. */
   if (badread)
     pels = 0;
   else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+    pels = (*myfread) (data, bpp, npels, fp);
 
   if (pels != npels) {
     if (!badread) {
@@ -455,35 +442,23 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     }
 
     /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
-  }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
+    memset(data + (pels * bpp), 0, ((npels - pels) * bpp));
   }
 
-  if (itype == GRAY)
-    for (j = bsize / 3 - 1; j >= 0; j -= 1) {
-      /* Find the alpha for this index. */
-      image.bitmap[3 * j] = image.bitmap[j];
-      image.bitmap[3 * j + 1] = image.bitmap[j];
-      image.bitmap[3 * j + 2] = image.bitmap[j];
-    }
-
-  if (pelbytes >= 3) {
-    /* Rearrange the colors from BGR to RGB. */
-    for (j = 0; j < bsize; j += pelbytes) {
-      unsigned char tmp = image.bitmap[j];
-      image.bitmap[j] = image.bitmap[j + 2];
-      image.bitmap[j + 2] = tmp;
+  /* Store indices as they are and anything else as RGB without alpha. */
+  for (j = 0; j < npels; j++) {
+    unsigned char *p = data + j * bpp, *q = image.bitmap + j * pelbytes;
+    if (itype == RGB) {
+      q[0] = p[2];
+      q[1] = p[1];
+      q[2] = p[0];
+    } else {
+      q[0] = p[0];
+      if (itype == GRAY)
+        q[1] = q[2] = p[0];
     }
   }
+  free(data);
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
@@ -535,7 +510,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From 7a2da26890532754b4b80f656af8785cee8aaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:14 +0000
Subject: [PATCH 36/65] fix: check the bounds of a pixel before reading it when
 following centerlines

---
 src/pxl-outline.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..f423853 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -218,12 +218,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  // Must not call at_bitmap_get_color() outside of the bitmap.
+  if (COMPUTE_DELTA(ROW, dir) + row <= 0 || COMPUTE_DELTA(COL, dir) + col <= 0
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+    return false;
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From c5983078906835894a897d08789cee0c02f73db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:14 +0000
Subject: [PATCH 37/65] fix: follow centerlines in images of more than 32767
 rows or columns

---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index f423853..fde5088 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -233,7 +233,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From c92fdf962c57b82b177614d824e5956b3b5d997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:14 +0000
Subject: [PATCH 38/65] fix: report tracing progress correctly for very large
 images

---
 src/pxl-outline.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index fde5088..1173def 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -97,7 +97,7 @@ find_outline_pixels(at_bitmap *bitmap, at_color *bg_color, at_progress_func noti
   pixel_outline_list_type outline_list;
   unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
-  unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
+  unsigned int max_progress = (unsigned int) AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
   O_LIST_LENGTH(outline_list) = 0;
   outline_list.data = NULL;
@@ -109,7 +109,7 @@ find_outline_pixels(at_bitmap *bitmap, at_color *bg_color, at_progress_func noti
       bool is_background;
 
       if (notify_progress)
-        notify_progress((float) (row * AT_BITMAP_WIDTH(bitmap) + col) / ((float) max_progress * (float) 3.0),
+        notify_progress((float) ((unsigned int) row * AT_BITMAP_WIDTH(bitmap) + col) / ((float) max_progress * (float) 3.0),
                         progress_data);
 
       /* A valid edge can be TOP for an outside outline.
@@ -235,7 +235,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
   pixel_outline_list_type outline_list;
   unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
-  unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
+  unsigned int max_progress = (unsigned int) AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
   O_LIST_LENGTH(outline_list) = 0;
   outline_list.data = NULL;
@@ -247,7 +247,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
       bool clockwise = false;
 
       if (notify_progress)
-        notify_progress((float) (row * AT_BITMAP_WIDTH(bitmap) + col) / ((float) max_progress * (float) 3.0),
+        notify_progress((float) ((unsigned int) row * AT_BITMAP_WIDTH(bitmap) + col) / ((float) max_progress * (float) 3.0),
                         progress_data);
 
       if (at_bitmap_equal_color(bitmap, row, col, &bg_color)) {
-- 
2.43.0


From 5ce8b3d30b454afb37548012e6a439a8fb6b6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:35 +0000
Subject: [PATCH 39/65] fix: thin against a white background when none is given

---
 src/thin-image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..0344581 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -114,6 +114,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 
   if (bg)
     background = *bg;
+  else
+    background.r = background.g = background.b = 0xff;
 
   bm.height = image->height;
   bm.width = image->width;
-- 
2.43.0


From 5414a7c6f142fedd6bf320f7c11b40936a327eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:35 +0000
Subject: [PATCH 40/65] fix: copy images of four gigabytes and more completely
 when thinning

---
 src/thin-image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thin-image.c b/src/thin-image.c
index 0344581..b53cfb1 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -120,8 +120,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
   bm.height = image->height;
   bm.width = image->width;
   bm.np = image->np;
-  XMALLOC(bm.bitmap, height * width * spp);
-  memcpy(bm.bitmap, image->bitmap, height * width * spp);
+  XMALLOC(bm.bitmap, (size_t)height * width * spp);
+  memcpy(bm.bitmap, image->bitmap, (size_t)height * width * spp);
   /* that clones the image */
 
   num_pixels = height * width;
-- 
2.43.0


From 5e425c787af2ed962ab864e730bee017fcb6a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:35 +0000
Subject: [PATCH 41/65] fix: despeckle images of more than 32767 rows or
 columns

---
 src/despeckle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..d59da60 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -681,7 +681,7 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
                /* exception handling */ at_exception_type * excep)
 {
   int i, planes, max_level;
-  short width, height;
+  int width, height;
   unsigned char *bits;
   double noise_max, adaptive_tightness;
 
-- 
2.43.0


From c0c9dad81763a73d7768903608b7075e588f2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:45 +0000
Subject: [PATCH 42/65] fix: reduce the colors of an image that is all
 background

---
 src/median.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..b781dec 100644
--- a/src/median.c
+++ b/src/median.c
@@ -346,10 +346,15 @@ static void compute_color_rgb(QuantizeObj * quantobj, Histogram histogram, boxpt
       }
     }
 
+  quantobj->freq[icolor] = total;
+  if (total == 0) {
+    /* Nothing but the ignored color in the image */
+    quantobj->cmap[icolor].r = quantobj->cmap[icolor].g = quantobj->cmap[icolor].b = 0;
+    return;
+  }
   quantobj->cmap[icolor].r = (unsigned char)((Rtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].g = (unsigned char)((Gtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].b = (unsigned char)((Btotal + (total >> 1)) / total);
-  quantobj->freq[icolor] = total;
 }
 
 static void select_colors_rgb(QuantizeObj * quantobj, Histogram histogram)
-- 
2.43.0


From 8982c1bc5e033b0d32c4426df19e98a5366cd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:45 +0000
Subject: [PATCH 43/65] fix: reduce to at most 256 colors, the size of the
 color map

---
 src/median.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/median.c b/src/median.c
index b781dec..8f83667 100644
--- a/src/median.c
+++ b/src/median.c
@@ -842,6 +842,9 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
     return;
   }
 
+  if (ncolors > MAXNUMCOLORS)
+    ncolors = MAXNUMCOLORS;
+
   /* If a pointer was sent in, let's use it. */
   if (iQuant) {
     if (*iQuant == NULL) {
-- 
2.43.0


From ee5cda3265a0a1d95a0d22c80c8fe75e976e439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:18 +0000
Subject: [PATCH 44/65] fix: make distance maps of images without rows or
 columns

---
 src/image-proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image-proc.c b/src/image-proc.c
index d57e810..8dd6bf7 100644
--- a/src/image-proc.c
+++ b/src/image-proc.c
@@ -86,7 +86,7 @@ at_distance_map new_distance_map(at_bitmap *bitmap, unsigned char target_value,
 
   /* If the image is padded then border points are all at most
      one unit away from the nearest target point. */
-  if (padded) {
+  if (padded && w > 0 && h > 0) {
     for (y = 0; y < (signed)h; y++) {
       if (dist.d[y][0] > dist.weight[y][0])
         dist.d[y][0] = dist.weight[y][0];
-- 
2.43.0


From aa9c39542ed5ab6954bf74374644b43c6b013579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:35 +0000
Subject: [PATCH 45/65] fix: subdivide inside the curve when no point is off

With an error threshold of zero (or below) a curve whose points all fit
was subdivided at a point after its end, reading and writing outside the
list of points.  Such a curve is accepted now, and a cyclic one is split
in the middle.
---
 src/fit.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 09d7fbc..57b2c67 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -945,7 +945,7 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
   spline = best_spline;
   error = best_error;
 
-  if (error < fitting_opts->error_threshold && CURVE_CYCLIC(curve) == false) {
+  if ((error < fitting_opts->error_threshold || worst_point >= CURVE_LENGTH(curve)) && CURVE_CYCLIC(curve) == false) {
     /* The points were fitted with a
        spline.  We end up here whenever a fit is accepted.  We have
        one more job: see if the ``curve'' that was fit should really
@@ -972,8 +972,13 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
     NEXT_CURVE(curve) = left_curve;
 
     LOG("\nSubdividing (error %.3f):\n", error);
-    LOG("  Original point: (%.3f,%.3f), #%u.\n", CURVE_POINT(curve, worst_point).x, CURVE_POINT(curve, worst_point).y, worst_point);
+    if (worst_point < CURVE_LENGTH(curve))
+      LOG("  Original point: (%.3f,%.3f), #%u.\n", CURVE_POINT(curve, worst_point).x, CURVE_POINT(curve, worst_point).y, worst_point);
     subdivision_index = worst_point;
+    /* No point inside the curve was off, so there is no worst one to
+       subdivide at.  Both parts must be shorter than the whole.  */
+    if (subdivision_index == 0 || subdivision_index >= CURVE_LENGTH(curve) - 1)
+      subdivision_index = CURVE_LENGTH(curve) / 2;
     LOG("  Final point: (%.3f,%.3f), #%u.\n", CURVE_POINT(curve, subdivision_index).x, CURVE_POINT(curve, subdivision_index).y, subdivision_index);
 
     /* The last point of the left-hand curve will also be the first
-- 
2.43.0


From 02e30fc0c9e1eae11fee743fc9580d120090bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:35 +0000
Subject: [PATCH 46/65] fix: stop looking for a tangent when no points are left

The number of points to consider wrapped around below zero, so that a
tangent surround of zero could keep the search running for billions of
steps.
---
 src/fit.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index 57b2c67..149844e 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -1187,6 +1187,9 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
   LOG("  tangent to %s: ", (to_start_point == true) ? "start" : "end");
 
   if (*curve_tangent == NULL) {
+    /* Without any other point there is no tangent.  */
+    if (tangent_surround == 0)
+      tangent_surround = 1;
     XMALLOC(*curve_tangent, sizeof(vector_type));
     do {
       tangent = find_half_tangent(curve, to_start_point, &n_points, tangent_surround);
@@ -1203,7 +1206,7 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
       tangent_surround--;
 
     }
-    while (tangent.dx == 0.0 && tangent.dy == 0.0);
+    while (tangent.dx == 0.0 && tangent.dy == 0.0 && tangent_surround > 0);
 
     assert(n_points > 0);
     **curve_tangent = Vmult_scalar(tangent, (float) (1.0 / n_points));
-- 
2.43.0


From 4f087d62113edb3db308b725f3e89498affad281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:45 +0000
Subject: [PATCH 47/65] fix: do not close a path in an SVG file without
 outlines

---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From f5345b102be3e392f780b75c88af1da947d12880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:02 +0000
Subject: [PATCH 48/65] fix: delete no pen or brush in an EMF file without
 outlines

---
 src/output-emf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..0c69318 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From 1d7f7f77e5980c8623024b566708122ff8b7913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:36 +0000
Subject: [PATCH 49/65] fix: write the length of a long name in a CGM file

---
 src/output-cgm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..8e2ddf8 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -67,10 +67,15 @@ static bool output_beginmetafilename(FILE *fdes, const char *string)
     write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
   else {
     write16(fdes, CGM_BEGINMETAFILE + 0x001F);
-    write16(fdes, (uint16_t) (len + 1));
+    write16(fdes, (uint16_t) (len + (len < 0x00FF ? 1 : 3)));
   }
 
-  write8(fdes, (uint8_t) len);
+  if (len < 0x00FF)
+    write8(fdes, (uint8_t) len);
+  else {
+    write8(fdes, 0xFF);         /* a long string has its length in a word */
+    write16(fdes, (uint16_t) len);
+  }
 
   while (*string != '\0') {
     write8(fdes, *string);
-- 
2.43.0


From 00611baab7c9ec4a1ec95c4548b2eff8e1fb5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:36 +0000
Subject: [PATCH 50/65] fix: turn the start point over in the bounding box of a
 DR2D path

---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..c54daf2 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From f7245eea26c57943f91557b367cb64d2a0c1d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:36 +0000
Subject: [PATCH 51/65] fix: free the list of chunks of a DR2D file

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index c54daf2..cf2e410 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From b0df147e0404266219a7dee46b97554311a3cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:41 +0000
Subject: [PATCH 52/65] fix: allow for more than 256 colors in a MIF file and
 free them

---
 src/output-mif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..d035015 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -107,10 +107,12 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
+  XMALLOC(col_tbl, (SPLINE_LIST_ARRAY_LENGTH(shape) + 1) * sizeof(ColorT));
+
   cbox.llx = llx;
   cbox.lly = lly;
   cbox.urx = urx;
@@ -185,5 +187,9 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From 7ba12008fb864f570ea8e5a6e143a7a193f46f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:41 +0000
Subject: [PATCH 53/65] fix: give every object of a MIF file its own color

---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index d035015..edb850a 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -160,6 +160,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
 
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
         break;
-- 
2.43.0


From 4412c0a8f8d34e9571bc416828f1b4c6fb77fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:41 +0000
Subject: [PATCH 54/65] fix: draw curves to their end in a MIF file

---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index edb850a..8dbb2e4 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -182,6 +182,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From 99ebc8eb23a9998e3d88b90bcc314834b23fc46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:41 +0000
Subject: [PATCH 55/65] fix: do not write past the color table of a FIG file
 with too many colors

---
 src/output-fig.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..c56e9b3 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -434,16 +434,16 @@ static int get_fig_colour(at_color this_colour, at_exception_type * exp)
   }
 
   if (fig_hash[hash].colour == 0) {
-    fig_hash[hash].colour = LAST_FIG_COLOUR;
-    fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
-    fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
-    fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
-    LAST_FIG_COLOUR++;
     if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
       LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
       at_exception_fatal(exp, "Output-Fig: too many colours");
       return 0;
     }
+    fig_hash[hash].colour = LAST_FIG_COLOUR;
+    fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
+    fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
+    fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
+    LAST_FIG_COLOUR++;
     return (fig_hash[hash].colour);
   } else {
     i = 0;
@@ -455,16 +455,16 @@ figcolloop:
     }
     /* If next colour zero - set it, return */
     if (fig_colour_map[this_ind].alternate == 0) {
-      fig_colour_map[this_ind].alternate = LAST_FIG_COLOUR;
-      fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
-      fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
-      fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
-      LAST_FIG_COLOUR++;
       if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
         LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
         at_exception_fatal(exp, "Output-Fig: too many colours");
         return 0;
       }
+      fig_colour_map[this_ind].alternate = LAST_FIG_COLOUR;
+      fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
+      fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
+      fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
+      LAST_FIG_COLOUR++;
       return (fig_colour_map[this_ind].alternate);
     }
     /* Else get next colour */
-- 
2.43.0


From ff2f2c100173fb9a82e03afe6d96435ec2d1f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:41 +0000
Subject: [PATCH 56/65] fix: start every FIG file with no colors and no bounds

---
 src/output-fig.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index c56e9b3..e25b7fc 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -369,6 +369,10 @@ static void fig_col_init(void)
 {
   int i;
 
+  LAST_FIG_COLOUR = 32;
+  glo_bbox_flag = 0;
+  loc_bbox_flag = 0;
+
   for (i = 0; i < 544; i++) {
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
-- 
2.43.0


From 03a719bcb1297067928810689b5dec3e12454e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 57/65] fix: put a black path after a colored one on its own
 layer in a DXF file

---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..e74c70b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,11 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
-- 
2.43.0


From eb85d5839ede17b91ed97f5a9245433e12a389d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 58/65] fix: begin and end no polyline without lines in a DXF
 file

---
 src/output-dxf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e74c70b..e83fbc1 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -612,6 +612,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.yp = lround(starty * RESOLUTION);
       }
     } else {
+      new_layer = 0;
       fprintf(dxf_file, "  0\nPOLYLINE\n  8\n%s\n  66\n1\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       fprintf(dxf_file, "  0\nVERTEX\n  8\n%s\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       pnt_old.xp = lround(startx * RESOLUTION);
@@ -690,7 +691,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
     last_color = curr_color;
   }
 
-  fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
+  if (!first_seg)
+    fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
 
 }
 
-- 
2.43.0


From 63078365f77b368a1fc2b6905ecdf368ea1536d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 59/65] fix: keep very short curves connected in a DXF file

---
 src/output-dxf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e83fbc1..aa83058 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -529,6 +529,8 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
     total_length = get_total_length(vtx_list);
     r = (spline_resolution == 0) ? sqrt(total_length) : total_length / spline_resolution;
     number_of_segments = lround(r);
+    if (number_of_segments < 1)
+      number_of_segments = 1;
     spline_step = ((double)knot[vtx_count + spline_order - 1]) / number_of_segments;
     for (knot_index = spline_order - 1; knot_index < vtx_count; knot_index++) {
       for (i = 0; i <= vtx_count + spline_order - 2; i++)
-- 
2.43.0


From 8fb5a2d1aedbf2b7ef7f1954f9d9acc21ecdeaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 60/65] fix: start every ILDA file with a frame of its own

---
 src/output-ild.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..8193e77 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -970,6 +970,8 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
     return;
 
   drawsequence = newLaserSequence();
+  drawframe = NULL;
+  inserted_anchor_points = 0;
 
   LastPoint.x = 0;
   LastPoint.y = 0;
-- 
2.43.0


From 2b3ec21d79131d1324b38a9c3721e6e7ffc6295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 61/65] fix: free the points of an ILDA file

---
 src/output-ild.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index 8193e77..0452450 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -466,6 +466,22 @@ pLaserSequence newLaserSequence(void)
   return (p);
 }
 
+void freeLaserSequence(pLaserSequence seq)
+{
+  pLaserFrame f, next_frame;
+  pLaserPoint p, next_point;
+
+  for (f = seq->frame_first; f != NULL; f = next_frame) {
+    next_frame = f->next;
+    for (p = f->point_first; p != NULL; p = next_point) {
+      next_point = p->next;
+      free(p);
+    }
+    free(f);
+  }
+  free(seq);
+}
+
 int sequence_frame_count(pLaserSequence seq)
 {
   return (seq->frame_count);
@@ -1032,8 +1048,10 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
+  if (file == stdout) {
+    freeLaserSequence(drawsequence);
     return 0;
+  }
 
   printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
   if (trueColorWrite)
@@ -1041,5 +1059,6 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   if (writeTable)
     printf(", Color Table");
   printf(").\n");
+  freeLaserSequence(drawsequence);
   return 0;
 }
-- 
2.43.0


From c5b42b11c4daedd04828ccf6bae79d483361afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:25 +0000
Subject: [PATCH 62/65] fix: convert negative coordinates of an ILDA file
 without overflow

---
 src/output-ild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index 0452450..97c4ee1 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -732,7 +732,7 @@ static inline short int clip(double x)
     x = 32767.0;
   if (x < -32768.0)
     x = -32768.0;
-  return (unsigned short)rint(x);
+  return (short int)rint(x);
 }
 
 /** No descriptions */
-- 
2.43.0


From 8fedb2556b4c36c95ebb2f73194f1183b9a093e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:35 +0000
Subject: [PATCH 63/65] fix: keep the curves of a DXF polyline connected at
 large coordinates

Control points were scaled in single precision and the current point in
double precision, so that the two could round to different positions and the
polyline was broken.
---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index aa83058..c04b3dc 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -53,7 +53,7 @@ typedef enum { NATURAL, TANGENT, PERIODIC, CYCLIC, ANTICYCLIC
 } SPLINE_END_TYPE;
 
 #define MAX_VERTICES 10000
-#define RESOLUTION   10000      /* asume no pixels bigger than 1000000.0 */
+#define RESOLUTION   10000.0    /* asume no pixels bigger than 1000000.0 */
 #define RADIAN                  57.295779513082
 
 typedef struct xypnt_t {
-- 
2.43.0


From 70e397778d844b194fb38d924fdd56b6b970e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:02 +0000
Subject: [PATCH 64/65] fix: do not take data after the BMP color map for
 colors

---
 src/input-bmp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 1d45ee3..9bcac11 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -399,6 +399,11 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   if (ColormapSize > 256)
 	  ColormapSize = 256;
 
+  /* what follows the used colors is not part of the map */
+  if (Bitmap_Head.biBitCnt <= 8 &&
+	  ColormapSize > (long)Bitmap_Head.biClrUsed)
+	  ColormapSize = Bitmap_Head.biClrUsed;
+
   /* Sanity checks */
 
   if (Bitmap_Head.biHeight == 0 ||
-- 
2.43.0


From 9d199e017b53122312c11619d7caf1a4fe94b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:02 +0000
Subject: [PATCH 65/65] fix: read OS/2 BMP files of more than 32767 rows or
 columns

---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9bcac11..eb35efe 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -219,8 +219,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
-- 
2.43.0

