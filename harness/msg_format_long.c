/* msg_format_long: as msg_format, for one long option value and a long payload (length encodings of 13..268 and
 * 269.., deltas likewise).  The option value byte and payload byte checked are at an unconstrained index.
 */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"
extern size_t vtrack;
#ifndef LMIN
#define LMIN 0
#endif
#ifndef LMAX
#define LMAX 300
#endif
#ifndef CAP
#define CAP (LMAX + 60)
#endif
#ifndef PMAX
#define PMAX 40
#endif

void harness(void)
{
    coap_msg_t msg;
    VRT_BYTES(val, LMAX + 1);
    VRT_BYTES(pay, PMAX + 1);
    VRT_BYTES(out, CAP + 1);
    unsigned num = nd_range(DMIN, DMAX), vlen = nd_range(LMIN, LMAX), plen = nd_range(0, PMAX), cap = nd_range(0, CAP);
    unsigned i = 0, need = 0, h = 4;
    ssize_t ret = 0;
    char guard = 0;

    vtrack = nd_range(0, LMAX);
    guard = out[cap];                         /* first byte outside the buffer */
    coap_msg_create(&msg);
    VRT_ASSERT(coap_msg_set_code(&msg, 2, 5) == 0, "legal code accepted");
    VRT_ASSERT(coap_msg_add_op(&msg, num, vlen, val) == 0, "option accepted");
    VRT_ASSERT(coap_msg_set_payload(&msg, pay, plen) == 0, "payload accepted");
    ret = coap_msg_format(&msg, out, cap);
    need = 5 + (num < 13 ? 0 : (num < 269 ? 1 : 2)) + (vlen < 13 ? 0 : (vlen < 269 ? 1 : 2)) + vlen + (plen ? 1 + plen : 0);
    VRT_ASSERT(out[cap] == guard, "nothing written beyond the buffer length");
    if (need > cap)
    {
        VRT_ASSERT(ret == -ENOSPC, "buffer too small is reported");
        VRT_WITNESS_POINT("too small");
    }
    else
    {
        unsigned dn = num < 13 ? num : (num < 269 ? 13 : 14), ln = vlen < 13 ? vlen : (vlen < 269 ? 13 : 14);
        VRT_ASSERT(ret == (ssize_t)need, "formatted length");
        VRT_ASSERT((unsigned char)out[0] == 0x40 && (unsigned char)out[1] == 0x45, "header bytes");
        VRT_ASSERT((unsigned char)out[h++] == ((dn << 4) | ln), "option delta and length nibbles");
        if (dn == 13) { VRT_ASSERT((unsigned char)out[h] == num - 13, "8-bit option delta"); h++; }
        if (dn == 14) { VRT_ASSERT((unsigned char)out[h] == (num - 269) / 256 && (unsigned char)out[h + 1] == (num - 269) % 256, "16-bit option delta"); h += 2; }
        if (ln == 13) { VRT_ASSERT((unsigned char)out[h] == vlen - 13, "8-bit option length"); h++; }
        if (ln == 14) { VRT_ASSERT((unsigned char)out[h] == (vlen - 269) / 256 && (unsigned char)out[h + 1] == (vlen - 269) % 256, "16-bit option length"); h += 2; }
        if (vtrack < vlen) VRT_ASSERT(out[h + vtrack] == val[vtrack], "option value bytes");
        if (plen)
        {
            VRT_ASSERT((unsigned char)out[h + vlen] == 0xff, "payload marker");
            if (vtrack < plen) VRT_ASSERT(out[h + vlen + 1 + vtrack] == pay[vtrack], "payload bytes");
        }
        VRT_WITNESS_POINT("formatted");
    }
    coap_msg_destroy(&msg);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "destroy returns every pool block");
}
