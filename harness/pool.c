/* pool: the three block pools of coap_mem.c.  Every occupancy of a pool of NUM blocks is reached through the API
 * (allocate everything, then return any subset), then two arbitrary operations follow, checked against a set model. */
#include <stdlib.h>
#include "vrt.h"
#include "coap_mem.h"
#ifndef NUM
#define NUM 8
#endif
#ifndef LEN
#define LEN 3
#endif
#if POOL == 0
#define CREATE coap_mem_small_create
#define DESTROY coap_mem_small_destroy
#define ALLOC coap_mem_small_alloc
#define FREE coap_mem_small_free
#define GETLEN coap_mem_small_get_len
#define GETNUM coap_mem_small_get_num
#define OTHER_ALLOC coap_mem_medium_alloc
#elif POOL == 1
#define CREATE coap_mem_medium_create
#define DESTROY coap_mem_medium_destroy
#define ALLOC coap_mem_medium_alloc
#define FREE coap_mem_medium_free
#define GETLEN coap_mem_medium_get_len
#define GETNUM coap_mem_medium_get_num
#define OTHER_ALLOC coap_mem_large_alloc
#else
#define CREATE coap_mem_large_create
#define DESTROY coap_mem_large_destroy
#define ALLOC coap_mem_large_alloc
#define FREE coap_mem_large_free
#define GETLEN coap_mem_large_get_len
#define GETNUM coap_mem_large_get_num
#define OTHER_ALLOC coap_mem_small_alloc
#endif

static char *blk[NUM];          /* address of each distinct block handed out */
static int live[NUM];

static unsigned nlive(void) { unsigned n = 0, i; for (i = 0; i < NUM; i++) n += live[i]; return n; }

/* allocate and check against the model: a block that is in bounds, not live, and one of the pool's NUM blocks */
static void do_alloc(unsigned len)
{
    unsigned i = 0, hit = NUM, before = nlive();
    char *p = ALLOC(len);
    VRT_ASSERT((p == NULL) == (len > LEN || before == NUM), "allocation fails exactly when too long or the pool is exhausted");
    if (p == NULL) return;
    for (i = 0; i < NUM; i++) if (blk[i] == p) hit = i;
    VRT_ASSERT(hit < NUM, "an allocated block is one of the pool's blocks");
    if (hit < NUM)
    {
        VRT_ASSERT(!live[hit], "a live block is never handed out again");
        live[hit] = 1;
    }
}

void harness(void)
{
    unsigned i = 0, j = 0, t = 0;
    unsigned sub = nd_range(0, (1u << NUM) - 1);
    unsigned opk[2], opi[2], opl[2], x = nd_range(0, NUM - 1), y = nd_range(0, LEN - 1);
    char foreign = 0;
    int ret = 0;
    unsigned badnum = nd_u32();

    for (t = 0; t < 2; t++) { opk[t] = nd_range(0, 4); opi[t] = nd_range(0, NUM - 1); opl[t] = nd_u32(); }
    if (badnum & 7) VRT_ASSERT(CREATE(badnum, LEN) < 0, "a block count that is not a multiple of 8 is rejected");
    VRT_ASSERT(CREATE(NUM, 0) < 0, "zero-length blocks are rejected");
    VRT_ASSERT(ALLOC(1) == NULL, "an empty pool allocates nothing");
    ret = CREATE(NUM, LEN);
    VRT_ASSERT(ret == 0, "pool created");
    VRT_ASSERT(GETLEN() == LEN && GETNUM() == NUM, "pool geometry reported");
    for (i = 0; i < NUM; i++)
    {
        blk[i] = ALLOC(LEN);
        VRT_ASSERT(blk[i] != NULL, "every block of the pool can be allocated");
        live[i] = 1;
        for (j = 0; j < LEN; j++) blk[i][j] = (char)(i + 1);
    }
    VRT_ASSERT(blk[x][y] == (char)(x + 1), "live blocks do not overlap");
    VRT_ASSERT(OTHER_ALLOC(1) == NULL, "the pools are separate");
    for (i = 0; i < NUM; i++) if ((sub >> i) & 1) { FREE(blk[i]); live[i] = 0; }
    for (t = 0; t < 2; t++)
    {
        switch (opk[t])
        {
        case 0: do_alloc(opl[t]); break;
        case 1: FREE(blk[opi[t]]); live[opi[t]] = 0; break;
        case 2: FREE(&foreign); break;
        case 3: FREE(NULL); break;
        default: FREE(blk[opi[t]] + 1); break;      /* inside a block: not a block address */
        }
    }
    if (live[x]) VRT_ASSERT(blk[x][y] == (char)(x + 1) , "a live block keeps its contents");
    /* drain: exactly the free blocks can be allocated, each once */
    for (i = 0; i < NUM; i++) if (nlive() < NUM) do_alloc(1);
    VRT_ASSERT(nlive() == NUM, "every returned block can be allocated again");
    VRT_ASSERT(ALLOC(0) == NULL, "an exhausted pool allocates nothing");
    if (sub == 5 && opk[0] == 0) VRT_WITNESS_POINT("drained");
    DESTROY();
    VRT_ASSERT(ALLOC(1) == NULL, "a destroyed pool allocates nothing");
}
