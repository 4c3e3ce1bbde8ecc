/* Preloaded next to the sanitizer runtime; controlled through ctypes. */
#include <malloc.h>
#include <stdlib.h>
#include <string.h>

long verif_calls, verif_fail_at = -1, verif_fail_for = 1, verif_failed, verif_live, verif_bytes;
int verif_fill = -1;

static int refuse(void) {
    long i = verif_calls++;
    if (verif_fail_at >= 0 && i >= verif_fail_at && i < verif_fail_at + verif_fail_for) {
        verif_failed++;
        return 1;
    }
    return 0;
}

void *verif_malloc(size_t n) {
    void *p = refuse() ? NULL : malloc(n);
    if (p) { verif_live++; verif_bytes += n; if (verif_fill >= 0) memset(p, verif_fill, n); }
    return p;
}
void *verif_calloc(size_t n, size_t m) {
    void *p = refuse() ? NULL : calloc(n, m);
    if (p) { verif_live++; verif_bytes += n * m; }
    return p;
}
void *verif_realloc(void *q, size_t n) {
    size_t old = q ? malloc_usable_size(q) : 0;
    void *p = refuse() ? NULL : realloc(q, n);
    if (p) {
        if (!q) verif_live++;
        if (n > old) { verif_bytes += n - old; if (verif_fill >= 0) memset((char *)p + old, verif_fill, n - old); }
    }
    return p;
}
void verif_free(void *p) {
    if (p) verif_live--;
    free(p);
}
