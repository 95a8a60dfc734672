/* counts the live heap blocks of the library (linked with --wrap) */
#include <stdlib.h>
#include <string.h>
long liveBlocks = 0;
int heapCounted = 1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) liveBlocks++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) liveBlocks++; return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p && !o) liveBlocks++; return p; }
void __wrap_free(void *p) { if (p) liveBlocks--; __real_free(p); }
void freeText(void *p) { __real_free(p); }
