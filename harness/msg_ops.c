/* msg_ops: options added in any order end up sorted by number, equal numbers in order of addition, values intact;
 * a copy is equal to the original and independent of it; option classification; all for K options.
 */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"
#ifndef K
#define K 3
#endif
#ifndef VMAX
#define VMAX 2
#endif

static int recognized(unsigned n)
{
    return n == 1 || n == 3 || n == 4 || n == 5 || n == 7 || n == 8 || n == 11 || n == 12 || n == 14 || n == 15 || n == 17
        || n == 20 || n == 23 || n == 27 || n == 28 || n == 35 || n == 39 || n == 60;
}

void harness(void)
{
    coap_msg_t msg, cpy;
    unsigned num[K], vlen[K], order[K];
    char val[K][VMAX];
    VRT_BYTES(tok, 8);
    VRT_BYTES(pay, 2);
    unsigned i = 0, j = 0, crit = 0, unsafe_ = 0;
    unsigned type = nd_range(0, 3), cls = nd_range(0, 7), det = nd_range(0, 31), id = nd_range(0, 65535), tkl = nd_range(0, 8), plen = nd_range(0, 2);
    coap_msg_op_t *op = NULL, *op2 = NULL;

    coap_msg_create(&msg);
    coap_msg_set_type(&msg, type); coap_msg_set_code(&msg, cls, det); coap_msg_set_msg_id(&msg, id);
    coap_msg_set_token(&msg, tok, tkl);
    for (i = 0; i < K; i++)
    {
        num[i] = nd_u32();
        vlen[i] = nd_range(0, VMAX);
        for (j = 0; j < VMAX; j++) val[i][j] = (char)nd_u8();
        VRT_ASSERT(coap_msg_add_op(&msg, num[i], vlen[i], val[i]) == 0, "option accepted");
        /* reference: stable insertion */
        for (j = i; j > 0; j--)
        {
            if (num[order[j - 1]] <= num[i]) break;
            order[j] = order[j - 1];
        }
        order[j] = i;
    }
    coap_msg_set_payload(&msg, pay, plen);

    op = coap_msg_get_first_op(&msg);
    for (i = 0; i < K; i++)
    {
        unsigned n = order[i];
        VRT_ASSERT(op != NULL, "no option is lost");
        VRT_ASSERT(coap_msg_op_get_num(op) == num[n], "options are in ascending order, equal numbers in order of addition");
        VRT_ASSERT(coap_msg_op_get_len(op) == vlen[n], "option length kept");
        for (j = 0; j < VMAX; j++) if (j < vlen[n]) VRT_ASSERT(coap_msg_op_get_val(op)[j] == val[n][j], "option value kept");
        if (crit == 0 && (num[n] & 1) && !recognized(num[n])) crit = num[n];
        if (unsafe_ == 0 && (num[n] & 2) && !recognized(num[n])) unsafe_ = num[n];
        op = coap_msg_op_get_next(op);
    }
    VRT_ASSERT(op == NULL, "no option is invented");
    VRT_ASSERT(!!coap_msg_check_critical_ops(&msg) == !!crit, "unrecognized critical option found exactly when present");
    VRT_ASSERT(!!coap_msg_check_unsafe_ops(&msg) == !!unsafe_, "unrecognized unsafe option found exactly when present");
    if (crit) { unsigned b = coap_msg_check_critical_ops(&msg); VRT_ASSERT((b & 1) && !recognized(b), "reported option is critical and unrecognized"); }
    if (unsafe_) { unsigned b = coap_msg_check_unsafe_ops(&msg); VRT_ASSERT((b & 2) && !recognized(b), "reported option is unsafe and unrecognized"); }
    if (crit) VRT_WITNESS_POINT("critical"); else VRT_WITNESS_POINT("no critical");

    coap_msg_create(&cpy);
    VRT_ASSERT(coap_msg_copy(&cpy, &msg) == 0, "copy succeeds");
    VRT_ASSERT(coap_msg_get_ver(&cpy) == 1 && (unsigned)coap_msg_get_type(&cpy) == type && coap_msg_get_code_class(&cpy) == cls
            && coap_msg_get_code_detail(&cpy) == det && coap_msg_get_msg_id(&cpy) == id, "copy: header equal");
    VRT_ASSERT(coap_msg_get_token_len(&cpy) == tkl, "copy: token length equal");
    for (j = 0; j < 8; j++) if (j < tkl) VRT_ASSERT(coap_msg_get_token(&cpy)[j] == tok[j], "copy: token equal");
    VRT_ASSERT(coap_msg_get_payload_len(&cpy) == plen, "copy: payload length equal");
    for (j = 0; j < 2; j++) if (j < plen) VRT_ASSERT(coap_msg_get_payload(&cpy)[j] == pay[j] && coap_msg_get_payload(&cpy) != coap_msg_get_payload(&msg), "copy: payload equal and separate");
    /* the copy survives the original */
    coap_msg_destroy(&msg);
    op2 = coap_msg_get_first_op(&cpy);
    for (i = 0; i < K; i++)
    {
        unsigned n = order[i];
        VRT_ASSERT(op2 != NULL, "copy: no option is lost");
        VRT_ASSERT(coap_msg_op_get_num(op2) == num[n] && coap_msg_op_get_len(op2) == vlen[n], "copy: option equal");
        for (j = 0; j < VMAX; j++) if (j < vlen[n]) VRT_ASSERT(coap_msg_op_get_val(op2)[j] == val[n][j], "copy: option value equal");
        op2 = coap_msg_op_get_next(op2);
    }
    VRT_ASSERT(op2 == NULL, "copy: no option is invented");
    coap_msg_destroy(&cpy);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "destroy returns every pool block");
}
