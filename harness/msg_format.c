/* msg_format: coap_msg_format() of every message built through the public API, into every buffer length,
 * against an independent RFC 7252 encoder: exact bytes, exact length, -ENOSPC exactly when it does not fit,
 * nothing written outside the buffer.
 */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"

#ifndef K
#define K 2                 /* number of options */
#endif
#ifndef VMAX
#define VMAX 3              /* option values of at most VMAX bytes */
#endif
#ifndef VMIN
#define VMIN 0
#endif
#ifndef PMAX
#define PMAX 3              /* payload of at most PMAX bytes */
#endif
#ifndef CAP
#define CAP 32              /* physical output buffer; the length passed is any value 0..CAP */
#endif
#ifndef NUMMIN
#define NUMMIN 0
#endif
#ifndef NUMMAX
#define NUMMAX 65535
#endif
#ifdef VTRACK
extern size_t vtrack;
#endif

static unsigned char ref[CAP + 8];
static unsigned rlen;
static void put(unsigned b) { if (rlen < CAP) ref[rlen] = (unsigned char)b; rlen++; }

void harness(void)
{
    coap_msg_t msg;
    VRT_BYTES(tok, 8);
    VRT_BYTES(pay, PMAX + 1);
    VRT_BYTES(out, CAP);
    struct { char b[CAP]; } before;
    char val[K + 1][VMAX + 1];
    unsigned num[K + 1], vlen[K + 1];
    unsigned type = nd_range(0, 3), cls = nd_range(0, 7), det = nd_range(0, 31), id = nd_range(0, 65535);
    unsigned tkl = nd_range(0, 8), plen = nd_range(0, PMAX), cap = nd_range(0, CAP);
    unsigned i = 0, j = 0, prev = 0, legal = 0;
    ssize_t ret = 0;
    unsigned x = nd_range(0, CAP - 1);

#ifdef TKL
    tkl = TKL;
#endif
#ifdef PLEN
    plen = PLEN;
#endif
    memcpy(&before, out, CAP);
    coap_msg_create(&msg);
    VRT_ASSERT(coap_msg_set_type(&msg, type) == 0, "legal type accepted");
    VRT_ASSERT(coap_msg_set_code(&msg, cls, det) == 0, "legal code accepted");
    VRT_ASSERT(coap_msg_set_msg_id(&msg, id) == 0, "legal message ID accepted");
    VRT_ASSERT(coap_msg_set_token(&msg, tok, tkl) == 0, "legal token accepted");
    for (i = 0; i < K; i++)
    {
        num[i] = nd_range(NUMMIN, NUMMAX);
        VRT_ASSUME(i == 0 || num[i] >= num[i - 1]);     /* the order of addition is decided by the option harness */
        vlen[i] = nd_range(VMIN, VMAX);
#ifdef NUM0
        if (i == 0) num[i] = NUM0;
#endif
        for (j = 0; j < VMAX; j++) val[i][j] = (char)nd_u8();
        VRT_ASSERT(coap_msg_add_op(&msg, num[i], vlen[i], val[i]) == 0, "option accepted");
    }
    VRT_ASSERT(coap_msg_set_payload(&msg, pay, plen) == 0, "payload accepted");

    ret = coap_msg_format(&msg, out, cap);

    /* independent encoder */
    put(0x40 | (type << 4) | tkl);
    put((cls << 5) | det);
    put(id >> 8);
    put(id & 0xff);
    for (j = 0; j < 8; j++) if (j < tkl) put((unsigned char)tok[j]);
    for (i = 0; i < K; i++)
    {
        unsigned d = num[i] - prev, l = vlen[i];
        unsigned dn = d < 13 ? d : (d < 269 ? 13 : 14), ln = l < 13 ? l : (l < 269 ? 13 : 14);
        put((dn << 4) | ln);
        if (dn == 13) put(d - 13);
        if (dn == 14) { put((d - 269) >> 8); put((d - 269) & 0xff); }
        if (ln == 13) put(l - 13);
        if (ln == 14) { put((l - 269) >> 8); put((l - 269) & 0xff); }
        for (j = 0; j < VMAX; j++) if (j < l) put((unsigned char)val[i][j]);
        prev = num[i];
    }
    if (plen)
    {
        put(0xff);
        for (j = 0; j < PMAX; j++) if (j < plen) put((unsigned char)pay[j]);
    }
    legal = (cls == 0 && det == 0) ? (type != 1 && tkl == 0 && K == 0 && plen == 0) : (type != 3);

    VRT_ASSERT(x < cap || out[x] == before.b[x], "nothing written beyond the buffer length");
    if (!legal)
    {
        VRT_ASSERT(ret < 0, "message that is not well-formed is refused");
        VRT_WITNESS_POINT("refused");
    }
    else if (rlen > cap)
    {
        VRT_ASSERT(ret == -ENOSPC, "buffer too small is reported");
        VRT_WITNESS_POINT("too small");
    }
    else
    {
        VRT_ASSERT(ret == (ssize_t)rlen, "formatted length");
        VRT_ASSERT(x >= rlen || (unsigned char)out[x] == ref[x], "formatted bytes");
        VRT_WITNESS_POINT("formatted");
    }
    coap_msg_destroy(&msg);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "destroy returns every pool block");
}
