/* heap accounting: the sources are compiled with malloc, calloc, realloc, strdup and free renamed to these (VHEAP_DEFS) */
#ifndef VHEAP_H
#define VHEAP_H
#include <stddef.h>
extern int vheap_live;              /* blocks currently allocated */
extern int vheap_allocs;            /* allocation attempts */
extern int vheap_fail_at;           /* the allocation with this number fails (0: none) */
extern int vheap_failed;
void *v_malloc(size_t n);
void *v_calloc(size_t n, size_t m);
void *v_realloc(void *p, size_t n);
char *v_strdup(const char *s);
void v_free(void *p);
#endif
