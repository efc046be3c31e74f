/* Linked into variant "mem": the library's objects are compiled with malloc etc. renamed to these. */
#include <stdlib.h>
#include <string.h>
extern long pbcv_direct;
void *pbcv_malloc(size_t n) { pbcv_direct++; return malloc(n); }
void *pbcv_calloc(size_t n, size_t m) { pbcv_direct++; return calloc(n, m); }
void *pbcv_realloc(void *p, size_t n) { pbcv_direct++; return realloc(p, n); }
void pbcv_free(void *p) { pbcv_direct++; free(p); }
char *pbcv_strdup(const char *s) { pbcv_direct++; return strdup(s); }
