/* Force-included into the instrumented build: the optimiser's own allocations go through
   lib/verif_alloc.c, which can fail the n-th one and fills fresh memory with a pattern. */
#ifndef VERIF_ALLOC_H
#define VERIF_ALLOC_H
#include <stdlib.h>
#ifdef __cplusplus
#include <cstdlib>
extern "C" {
#endif
void *verif_malloc(size_t n);
void *verif_calloc(size_t n, size_t m);
void *verif_realloc(void *p, size_t n);
void verif_free(void *p);
#ifdef __cplusplus
}
#endif
#define malloc verif_malloc
#define calloc verif_calloc
#define realloc verif_realloc
#define free verif_free
#endif
