/* msg_parse: coap_msg_parse() against an independent RFC 7252 decoder, for every datagram of N bytes
 * (NFIX leading bytes may be pinned by the configuration) and every pool outcome.
 *
 * Decides: memory safety, accept/reject, decoded fields, slots held after a rejected parse.
 */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"
#ifdef VTRACK
extern size_t vtrack;
#endif

#ifndef N
#define N 8                 /* datagram length */
#endif
#ifndef KOPS
#define KOPS 4              /* at most KOPS options */
#endif
#ifndef MAYFAIL
#define MAYFAIL 0           /* 1: any pool allocation may fail */
#endif
#ifndef MINVAL
#define MINVAL 0            /* only datagrams with an option value of at least MINVAL bytes */
#endif
#ifndef TKL_MAX
#define TKL_MAX 15
#endif

enum { R_OK, R_FORMAT, R_VERSION, R_NOMEM };

typedef struct { unsigned num, len, off; } ref_op_t;
typedef struct {
    int status;
    unsigned type, tkl, cls, det, id, nops, payload_off, payload_len, maxval;
    ref_op_t op[KOPS + 1];
} ref_t;

static void ref_decode(ref_t *r, const unsigned char *b, unsigned n)
{
    unsigned i = 0, num = 0, k = 0;

    r->status = R_FORMAT;
    r->nops = 0; r->payload_len = 0; r->payload_off = 0; r->maxval = 0;
    if (n < 4) return;
    if ((b[0] >> 6) != 1) { r->status = R_VERSION; return; }
    r->type = (b[0] >> 4) & 3;
    r->tkl = b[0] & 15;
    r->cls = b[1] >> 5;
    r->det = b[1] & 31;
    r->id = (unsigned)b[2] * 256 + b[3];
    if (r->tkl > 8) return;
    if (r->cls == 1 || r->cls == 3 || r->cls > 5) return;
    i = 4 + r->tkl;
    if (i > n) return;
    for (k = 0; k <= KOPS; k++)
    {
        unsigned d = 0, l = 0;
        if (i >= n || b[i] == 0xff) break;
        if (k == KOPS) { r->nops = KOPS + 1; return; }
        d = b[i] >> 4; l = b[i] & 15; i++;
        if (d == 15 || l == 15) return;
        if (d == 13) { if (i >= n) return; d = 13u + b[i]; i++; }
        else if (d == 14) { if (i + 1 >= n) return; d = 269u + b[i] * 256u + b[i + 1]; i += 2; }
        if (l == 13) { if (i >= n) return; l = 13u + b[i]; i++; }
        else if (l == 14) { if (i + 1 >= n) return; l = 269u + b[i] * 256u + b[i + 1]; i += 2; }
        if (l > n - i) return;
        if (l > r->maxval) r->maxval = l;
        if (l > vmem_medium_len) { r->status = R_NOMEM; return; }
        num += d;
        r->op[k].num = num; r->op[k].len = l; r->op[k].off = i;
        r->nops = k + 1;
        i += l;
    }
    if (i < n)
    {
        i++;
        if (i == n) return;
        r->payload_off = i;
        r->payload_len = n - i;
        if (r->payload_len > vmem_medium_len) { r->status = R_NOMEM; return; }
    }
    if (r->cls == 0 && r->det == 0)
    {
        if (r->type == 1 || r->tkl || r->nops || r->payload_len) return;
    }
    else if (r->type == 3) return;
    r->status = R_OK;
}

void harness(void)
{
    coap_msg_t msg;
    ref_t ref;
    VRT_BYTES(src, N);
    char *buf = src;                     /* exactly N bytes: any over-read is out of bounds */
    ssize_t ret = 0;
    unsigned j = 0, k = 0;
    coap_msg_op_t *op = NULL;

#ifdef PINH
    src[0] = (char)(PINH);               /* version, type and token length pinned */
#endif
#ifdef PIN0
    src[0] = (char)(PIN0);               /* long datagrams: version/type/token length pinned ... */
    src[4 + ((PIN0) & 15)] = (char)(PINOP);  /* ... and the first option's delta and length nibbles */
#endif
    ref_decode(&ref, (unsigned char *)src, N);
    VRT_ASSUME(ref.nops <= KOPS);
    VRT_ASSUME(ref.maxval >= MINVAL);
    VRT_ASSUME(N < 4 || (src[0] & 15) <= TKL_MAX);

    vmem_may_fail = MAYFAIL;
#ifdef VTRACK
    vtrack = nd_range(0, N);
#endif
    coap_msg_create(&msg);
    ret = coap_msg_parse(&msg, buf, N);

    VRT_ASSERT(ret <= 0, "parse returns 0 or a negative error");
    VRT_ASSERT(!vmem_bad_free, "every block goes back to the pool it came from");
    if (ref.status == R_OK)
    {
        if (!MAYFAIL || !vmem_any_failed) VRT_ASSERT(ret == 0, "well-formed datagram is accepted");
    }
    else
    {
        VRT_ASSERT(ret < 0, "malformed datagram is rejected");
        if (ref.status == R_FORMAT && !vmem_any_failed)
            VRT_ASSERT(ret == -EBADMSG, "format error is reported as bad message");
        if (ref.status == R_VERSION)
            VRT_ASSERT(ret != -EBADMSG, "unknown version is not reported as a format error");
    }
    if (ret < 0)
    {
        VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0, "rejected datagram holds no pool block");
        VRT_WITNESS_POINT("reject");
    }
    else
    {
#ifdef VTRACK
        unsigned x = (unsigned)vtrack;
#else
        unsigned x = nd_u32();
#endif
        VRT_ASSERT(coap_msg_get_ver(&msg) == 1, "version");
        VRT_ASSERT((unsigned)coap_msg_get_type(&msg) == ref.type, "type decoded");
        VRT_ASSERT(coap_msg_get_token_len(&msg) == ref.tkl, "token length decoded");
        VRT_ASSERT(coap_msg_get_code_class(&msg) == ref.cls && coap_msg_get_code_detail(&msg) == ref.det, "code decoded");
        VRT_ASSERT(coap_msg_get_msg_id(&msg) == ref.id, "message ID decoded");
        VRT_ASSERT(coap_msg_get_payload_len(&msg) == ref.payload_len, "payload length decoded");
        for (j = 0; j < 8; j++)
            if (j < ref.tkl) VRT_ASSERT(coap_msg_get_token(&msg)[j] == src[4 + j], "token bytes decoded");
        if (x < ref.payload_len)
            VRT_ASSERT(coap_msg_get_payload(&msg)[x] == src[ref.payload_off + x], "payload bytes decoded");
        op = coap_msg_get_first_op(&msg);
        for (k = 0; k < KOPS; k++)
        {
            if (k >= ref.nops) break;
            VRT_ASSERT(op != NULL, "no option is lost");
            VRT_ASSERT(coap_msg_op_get_num(op) == ref.op[k].num, "option number decoded");
            VRT_ASSERT(coap_msg_op_get_len(op) == ref.op[k].len, "option length decoded");
            if (x < ref.op[k].len)
                VRT_ASSERT(coap_msg_op_get_val(op)[x] == src[ref.op[k].off + x], "option value decoded");
            op = coap_msg_op_get_next(op);
        }
        VRT_ASSERT(op == NULL, "no option is invented");
#ifndef REJECT_ONLY
        VRT_WITNESS_POINT("accept");
#endif
    }
    coap_msg_destroy(&msg);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0, "destroy returns every pool block");
    VRT_ASSERT(!vmem_bad_free, "every block goes back to the pool it came from (destroy)");
}
