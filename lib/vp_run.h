/* Support for harnesses that are executed on a finite set of inputs (bounded
 * stand-ins).  Include before the sources under check: heap use is counted. */
#ifndef VP_RUN_H
#define VP_RUN_H
#include "vp.h"
#include <stdarg.h>
static unsigned long vp_cases;
static long vp_blocks;
static inline void *vp_malloc(size_t n) { void *p = malloc(n); if (p) { vp_blocks++; memset(p, 0xa5, n < 4096 ? n : 4096); } return p; }
static inline void *vp_calloc(size_t n, size_t k) { void *p = calloc(n, k); if (p) vp_blocks++; return p; }
static inline void *vp_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p && !q) vp_blocks++; return p; }
static inline void vp_free(void *p) { if (p) vp_blocks--; free(p); }
static inline char *vp_strdup(const char *s) { char *p = vp_malloc(strlen(s) + 1); return strcpy(p, s); }
static void *(*const vp_real_realloc)(void *, size_t) = realloc;
static void (*const vp_real_free)(void *) = free;
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#undef strdup
#define strdup vp_strdup
#ifdef VP_DONE_QUIET
#define VP_DONE()
#else
#define VP_DONE() do { printf("VP_CASES %lu\n", vp_cases); fflush(stdout); } while (0)
#endif
/* a failing case is described by vp_case_text before it runs */
static char vp_case_text[8192];
#undef VP_ASSERT
#define VP_ASSERT(c, msg) do { if (!(c)) { fprintf(stderr, "VP: FAILED: %s (%s) case: %s\n", msg, #c, vp_case_text); fflush(stderr); _exit(1); } } while (0)
#endif
