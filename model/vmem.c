/* Pool allocator abstraction: the contract of coap_mem.h (which property C06 decides for the real
 * coap_mem.c) with one heap object per block, so that CBMC/ASan see every out-of-block access.
 */
#undef malloc
#undef free
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_mem.h"
#include "coap_msg.h"
#ifdef VMEM_TYPED
/* small blocks exactly as long as an option: CBMC then gives the object the type of the structure, which keeps its
 * fields (list links above all) constant where they are constant */
#define VMEM_SMALL sizeof(coap_msg_op_t)
#ifdef PATHS
#include "coap_server.h"
#define VMEM_SMALL_CHARS 24
_Static_assert(VMEM_SMALL_CHARS == sizeof(coap_msg_op_t), "one length for all small blocks");
#endif
#endif
#ifndef VMEM_SMALL
#define VMEM_SMALL 32
#endif
#ifndef VMEM_MEDIUM
#define VMEM_MEDIUM 32
#endif
#ifndef VMEM_LARGE
#define VMEM_LARGE 64
#endif
size_t vmem_small_len = VMEM_SMALL, vmem_medium_len = VMEM_MEDIUM, vmem_large_len = VMEM_LARGE;
int vmem_small_live, vmem_medium_live, vmem_large_live;
int vmem_may_fail;
int vmem_fail_at, vmem_allocs;         /* the allocation with this number fails (0: none) */
int vmem_any_failed;
int vmem_bad_free;

/* each block carries a one-byte pool tag in front of it?  No: that would hide underflows.  Instead the
 * pool a block came from is recovered from its size, which is distinct per pool. */
static void *vmem_alloc(size_t len, size_t pool_len, int *live)
{
    void *p = NULL;
    if (len > pool_len) { vmem_any_failed = 1; return NULL; }
    if (++vmem_allocs == vmem_fail_at) { vmem_any_failed = 1; return NULL; }
    if (vmem_may_fail && nd_bool()) { vmem_any_failed = 1; return NULL; }
    p = malloc(pool_len);
    VRT_ASSUME(p != NULL);
    (*live)++;
    return p;
}
#ifdef VRT_CBMC
#define VMEM_SIZE(p) __CPROVER_OBJECT_SIZE(p)
#else
#include <malloc.h>
size_t __sanitizer_get_allocated_size(const volatile void *p);
#define VMEM_SIZE(p) __sanitizer_get_allocated_size(p)
#endif
static void vmem_free(void *buf, size_t pool_len, int *live)
{
    if (buf == NULL) return;                       /* the real pool ignores unknown pointers */
#ifdef PATHS
    if (pool_len == VMEM_SMALL && VMEM_SIZE(buf) == sizeof(coap_server_path_t)) ;
    else
#endif
    if (VMEM_SIZE(buf) != pool_len) { vmem_bad_free = 1; return; }
    (*live)--;
    free(buf);
}
#ifdef VMEM_TYPED
void *coap_mem_small_alloc(size_t len)
{
    void *p = NULL;
    if (++vmem_allocs == vmem_fail_at || len > VMEM_SMALL || (vmem_may_fail && nd_bool())) { vmem_any_failed = 1; return NULL; }
#ifdef PATHS
    /* likewise the other things the server keeps in small blocks: its path structures and strings */
    if (len == sizeof(coap_server_path_t)) p = malloc(sizeof(coap_server_path_t));
    else if (len != sizeof(coap_msg_op_t)) p = malloc(VMEM_SMALL_CHARS * sizeof(char));
    else
#endif
    p = malloc(sizeof(coap_msg_op_t));
    VRT_ASSUME(p != NULL);
    vmem_small_live++;
    return p;
}
#else
void *coap_mem_small_alloc(size_t len)  { return vmem_alloc(len, VMEM_SMALL, &vmem_small_live); }
#endif
void *coap_mem_medium_alloc(size_t len) { return vmem_alloc(len, VMEM_MEDIUM, &vmem_medium_live); }
void *coap_mem_large_alloc(size_t len)  { return vmem_alloc(len, VMEM_LARGE, &vmem_large_live); }
void coap_mem_small_free(void *b)  { vmem_free(b, VMEM_SMALL, &vmem_small_live); }
void coap_mem_medium_free(void *b) { vmem_free(b, VMEM_MEDIUM, &vmem_medium_live); }
void coap_mem_large_free(void *b)  { vmem_free(b, VMEM_LARGE, &vmem_large_live); }
size_t coap_mem_small_get_len(void)  { return VMEM_SMALL; }
size_t coap_mem_medium_get_len(void) { return VMEM_MEDIUM; }
size_t coap_mem_large_get_len(void)  { return VMEM_LARGE; }
