#ifndef VMEM_H
#define VMEM_H
#include <stddef.h>
extern size_t vmem_small_len, vmem_medium_len, vmem_large_len;   /* block length of each pool */
extern int vmem_small_live, vmem_medium_live, vmem_large_live;   /* blocks currently allocated */
extern int vmem_fail_at, vmem_allocs;
extern int vmem_may_fail;                                        /* 1: any allocation may fail */
extern int vmem_any_failed;
extern int vmem_bad_free;                                        /* wrong pool, or more frees than allocations */
#endif
