/* msg_path: coap_msg_uri_path_to_str() for K options and buffer length LEN: always terminated, never overruns,
 * "/seg/seg" (or "/") truncated to the buffer, full length returned.
 */
#include <stdlib.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"
#ifndef K
#define K 3
#endif
#ifndef VMAX
#define VMAX 3
#endif
#define CAP LEN
/* 0: an option with a lower number, 1: URI-Path, 2: an option with a higher number */
static const unsigned kinds[K] = { KINDS };

void harness(void)
{
    coap_msg_t msg;
    char out[CAP + 1];
    char ref[K * (VMAX + 1) + 1];
    unsigned rlen = 0, i = 0, j = 0, len = LEN;
    char guard = 0x5a;
    size_t ret = 0;
    out[CAP] = guard;

    coap_msg_create(&msg);
    for (i = 0; i < K; i++)
    {
        char val[VMAX];
        unsigned kind = kinds[i], vlen = nd_range(0, VMAX);
        for (j = 0; j < VMAX; j++) val[j] = (char)nd_u8();
        if (kind == 0) coap_msg_add_op(&msg, COAP_MSG_LOCATION_PATH, vlen, val);
        else if (kind == 2) coap_msg_add_op(&msg, COAP_MSG_URI_QUERY, vlen, val);
        else
        {
            coap_msg_add_op(&msg, COAP_MSG_URI_PATH, vlen, val);
            ref[rlen++] = '/';
            for (j = 0; j < VMAX; j++) if (j < vlen) ref[rlen++] = val[j];
        }
    }
    if (rlen == 0) ref[rlen++] = '/';
    ret = coap_msg_uri_path_to_str(&msg, out, len);
    VRT_ASSERT(out[CAP] == guard, "nothing written beyond the buffer length");
#if LEN > 1
    {
        unsigned m = rlen < len - 1 ? rlen : len - 1;
        unsigned x = nd_range(0, K * (VMAX + 1));
        VRT_ASSERT(ret == rlen, "full path length returned");
        VRT_ASSERT(x >= m || out[x] == ref[x], "path bytes");
        VRT_ASSERT(out[m] == '\0', "path terminated");
        if (rlen > 1 && LEN > 1) VRT_WITNESS_POINT("path");
    }
#else
    {
        VRT_ASSERT(out[0] == '\0', "path terminated");
        if (rlen > 1) VRT_WITNESS_POINT("path");
    }
#endif
    coap_msg_destroy(&msg);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "destroy returns every pool block");
}
