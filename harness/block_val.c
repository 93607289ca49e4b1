/* block_val: Block1/Block2 option values, for every 32-bit number, size and flag and every value length: no bound. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"

void harness(void)
{
    VRT_BYTES(in, 6);
    unsigned num = nd_u32(), more = nd_u32(), size = nd_u32(), len = nd_range(0, 5), ilen = nd_range(0, 6);
    unsigned na = nd_u32(), nb = nd_u32(), want = nd_bool() ? COAP_MSG_BLOCK1 : COAP_MSG_BLOCK2;
    unsigned a = nd_range(0, 3), b = nd_range(0, 3);
    unsigned n2 = 0, m2 = 0, s2 = 0, j = 0;
    struct { char v[6]; char guard; } o;
    int ret = 0, szx = -1, fits = 0;
    unsigned long v = 0;
    coap_msg_t msg;

    VRT_ASSUME(na != nb);
    /* size exponent */
    for (j = 0; j < 7; j++) if (size == (16u << j)) szx = (int)j;
    ret = coap_msg_op_calc_block_szx(size);
    VRT_ASSERT(szx >= 0 ? ret == szx : ret < 0, "size exponent defined exactly for 16..1024");

    /* encode */
    for (j = 0; j < 6; j++) o.v[j] = 0x5a;
    ret = coap_msg_op_format_block_val(o.v, len, num, more, size);
    fits = szx >= 0 && ((len == 1 && num < 16) || (len == 2 && num < 4096) || (len == 3 && num < 1048576));
    VRT_ASSERT(fits ? ret == (int)len : ret < 0, "encoded exactly when number and size fit");
    for (j = 0; j < 6; j++) if (j >= len) VRT_ASSERT(o.v[j] == 0x5a, "nothing written beyond the value length");
    if (fits)
    {
        v = ((unsigned long)num << 4) | (more ? 8 : 0) | (unsigned)szx;
        for (j = 0; j < 3; j++) if (j < len)
            VRT_ASSERT((unsigned char)o.v[len - 1 - j] == ((v >> (8 * j)) & 0xff), "encoded value is big-endian NUM|M|SZX");
        ret = coap_msg_op_parse_block_val(&n2, &m2, &s2, o.v, len);
        VRT_ASSERT(ret == 0 && n2 == num && m2 == !!more && s2 == size, "decode(encode(x)) == x");
        VRT_WITNESS_POINT("round trip");
    }

    /* decode any value of any length */
    ret = coap_msg_op_parse_block_val(&n2, &m2, &s2, in + (6 - ilen), ilen);
    v = 0;
    for (j = 0; j < 6; j++) if (j < ilen) v = (v << 8) | (unsigned char)in[6 - ilen + j];
    if (ilen > 3 || (v & 7) == 7)
        VRT_ASSERT(ret < 0, "over-long value or reserved size rejected");
    else
        VRT_ASSERT(ret == 0 && n2 == (v >> 4) && m2 == ((v >> 3) & 1) && s2 == (16u << (v & 7)), "decoded value");

    /* lookup in a message: the requested block option is found, and only that one */
    {
        coap_msg_create(&msg);
        VRT_ASSERT(coap_msg_add_op(&msg, na, a, in) == 0 && coap_msg_add_op(&msg, nb, b, in + 3) == 0, "options accepted");
        ret = coap_msg_parse_block_op(&n2, &m2, &s2, &msg, (int)want);
        if (na != want && nb != want)
            VRT_ASSERT(ret == 1, "absent block option reported as absent");
        else
        {
            unsigned l = na == want ? a : b, off = na == want ? 0 : 3;
            v = 0;
            for (j = 0; j < 3; j++) if (j < l) v = (v << 8) | (unsigned char)in[off + j];
            if ((v & 7) == 7) VRT_ASSERT(ret < 0, "reserved size rejected");
            else VRT_ASSERT(ret == 0 && n2 == (v >> 4) && m2 == ((v >> 3) & 1) && s2 == (16u << (v & 7)), "block option found and decoded");
            VRT_WITNESS_POINT("found");
        }
        coap_msg_destroy(&msg);
    }
}
