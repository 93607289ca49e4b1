/* mem_fail: every message operation with any subset of its pool allocations failing: failure is reported, the message
 * stays usable, and once destroyed every pool block is back. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"
#ifndef K
#define K 2
#endif

static unsigned count(coap_msg_t *m) { unsigned n = 0; coap_msg_op_t *o = coap_msg_get_first_op(m); while (o) { n++; o = coap_msg_op_get_next(o); } return n; }

void harness(void)
{
    coap_msg_t msg, cpy;
    unsigned num[K], len[K], plen = nd_range(0, 9), plen2 = nd_range(0, 9), i = 0, nops = 0;
    unsigned final = nd_range(0, 9), fnum = nd_u32();
    char val[12] = "abcdefghijk";
    int ret = 0, had = 0;

    for (i = 0; i < K; i++) { num[i] = nd_u32(); len[i] = nd_range(0, 9); }
    vmem_may_fail = 1;
    coap_msg_create(&msg);
    coap_msg_create(&cpy);
    for (i = 0; i < K; i++)
    {
        int s = vmem_small_live, m = vmem_medium_live;
        vmem_any_failed = 0;
        ret = coap_msg_add_op(&msg, num[i], len[i], val);
        VRT_ASSERT((ret < 0) == vmem_any_failed, "add option fails exactly when an allocation fails");
        if (ret < 0) VRT_ASSERT(vmem_small_live == s && vmem_medium_live == m, "a failed add holds no block");
        else nops++;
        VRT_ASSERT(count(&msg) == nops, "a failed add leaves the option list as it was");
    }
    vmem_any_failed = 0;
    ret = coap_msg_set_payload(&msg, val, plen);
    VRT_ASSERT((ret < 0) == vmem_any_failed, "set payload fails exactly when an allocation fails");
    VRT_ASSERT(ret < 0 ? coap_msg_get_payload_len(&msg) == 0 && coap_msg_get_payload(&msg) == NULL : coap_msg_get_payload_len(&msg) == plen, "payload after set");
    vmem_any_failed = 0;
    ret = coap_msg_set_payload(&msg, val, plen2);
    VRT_ASSERT((ret < 0) == vmem_any_failed, "replacing the payload fails exactly when an allocation fails");
    VRT_ASSERT(vmem_medium_live <= (int)nops + 1, "the replaced payload is returned");
    had = coap_msg_get_payload_len(&msg) > 0;
    VRT_ASSERT(vmem_medium_live == (int)nops + had && vmem_small_live == (int)nops, "blocks held match the message");

    vmem_any_failed = 0;
    ret = coap_msg_copy(&cpy, &msg);
    VRT_ASSERT((ret < 0) == vmem_any_failed, "copy fails exactly when an allocation fails");
    VRT_ASSERT(count(&msg) == nops, "the source of a copy is untouched");
    if (ret == 0 && nops == K) VRT_WITNESS_POINT("copy succeeded");
    if (ret < 0 && nops == K) VRT_WITNESS_POINT("copy failed");
    if (nd_bool()) coap_msg_reset(&cpy); else coap_msg_destroy(&cpy);
    VRT_ASSERT(vmem_medium_live == (int)nops + had && vmem_small_live == (int)nops, "a destroyed copy returns its blocks");
    ret = coap_msg_add_op(&msg, fnum, final, val);
    if (ret == 0) VRT_ASSERT(count(&msg) == nops + 1, "the message stays usable");
    if (nd_bool()) { coap_msg_clear_payload(&msg); VRT_ASSERT(coap_msg_get_payload_len(&msg) == 0, "payload cleared"); }
    coap_msg_destroy(&msg);
    VRT_ASSERT(vmem_medium_live == 0 && vmem_small_live == 0 && !vmem_bad_free, "every block returned to the pool it came from");
}
