#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include <stdlib.h>
#include <string.h>
#include "vrt.h"
#include "vheap.h"
#ifndef VHEAP_CAP
#define VHEAP_CAP 32
#endif
int vheap_live, vheap_allocs, vheap_fail_at, vheap_failed;

/* CBMC: a block of symbolic length is placed at the end of an object of constant length, so an access behind the block is an
 * access behind the object, and no array of symbolic size reaches the solver.  (Natively ASan watches exact blocks.) */
#if defined(VRT_CBMC) && !defined(VHEAP_EXACT)
static void *vheap_get(size_t n)
{
    char *p = NULL;
    if (n > VHEAP_CAP) { __CPROVER_assert(n <= VHEAP_CAP, "VP: allocation no larger than the input allows"); __CPROVER_assume(0); }
    p = malloc(VHEAP_CAP);
    __CPROVER_assume(p != NULL);
    return p + (VHEAP_CAP - n);
}
#else
static void *vheap_get(size_t n) { return malloc(n); }
#endif
void *v_malloc(size_t n)
{
    void *p = NULL;
    if (++vheap_allocs == vheap_fail_at) { vheap_failed = 1; return NULL; }
    p = vheap_get(n);
    VRT_ASSUME(p != NULL);
    vheap_live++;
    return p;
}
void *v_calloc(size_t n, size_t m)
{
    char *p = v_malloc(n * m);
    if (p == NULL) return NULL;
#ifdef VRT_CBMC
    for (size_t i = 0; i < n * m; i++) p[i] = 0;
#else
    memset(p, 0, n * m);
#endif
    return p;
}
char *v_strdup(const char *s)
{
    size_t n = strlen(s);
    char *p = v_malloc(n + 1);
    if (p == NULL) return NULL;
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    p[n] = '\0';
    return p;
}
void v_free(void *p)
{
    if (p == NULL) return;
    vheap_live--;
#if defined(VRT_CBMC) && !defined(VHEAP_EXACT)
    free((char *)p - __CPROVER_POINTER_OFFSET(p));
#else
    free(p);
#endif
}
#ifdef VRT_SYM
size_t vrt_sym_objsize(const void *p);
#define vheap_size vrt_sym_objsize
#elif !defined(VRT_CBMC)
size_t __sanitizer_get_allocated_size(const volatile void *p);
#define vheap_size __sanitizer_get_allocated_size
#else
#define vheap_size(p) (VHEAP_CAP - __CPROVER_POINTER_OFFSET(p))
#endif
void *v_realloc(void *p, size_t n)
{
    char *q = v_malloc(n);
    size_t old = 0;
    if (p == NULL || q == NULL) return q;
    old = vheap_size(p);
    memcpy(q, p, old < n ? old : n);
    v_free(p);
    return q;
}
