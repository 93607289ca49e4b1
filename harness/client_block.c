/* client_block: coap_client_exchange_blockwise() (METHOD 1 GET, 2 POST, 3 PUT) over NRX exchanges whose responses match
 * their requests but are otherwise arbitrary (code, block options, payload bytes; payload lengths
 * and all but the last response's block values pinned by the configuration), against a reference of RFC 7959. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "msgio.h"
#include "vclient.h"
#include "coap_client.h"
static const unsigned plens[NRX] = { PLENS };       /* payload length of each response */
static const int b1v[NRX] = { B1V };                /* Block1 value of each response, -1 any */
static const int b2v[NRX] = { B2V };
static const unsigned dets[NRX] = { DETS };         /* code detail of each response but the last */
static const unsigned b1p[NRX] = { B1P };           /* Block1 option present in each response */
static const unsigned b2p[NRX] = { B2P };
static coap_client_t client;

#define LG(s) ((s) == 16 ? 0 : (s) == 32 ? 1 : (s) == 64 ? 2 : (s) == 128 ? 3 : (s) == 256 ? 4 : (s) == 512 ? 5 : 6)
/* block option value of the block at byte offset start */
static unsigned to_val(unsigned start, unsigned more, unsigned szx) { return ((start >> (szx + 4)) << 4) | (more ? 8 : 0) | szx; }

void harness(void)
{
    coap_msg_t req, resp;
    unsigned i = 0, j = 0, x = nd_range(0, BODY - 1), phase2 = METHOD == 1, start = 0, szx = METHOD == 1 ? LG(SZ2) : LG(SZ1), have = 0;
    unsigned sent = 0;
    char body[BODY + 1], orig[BODY], expect = 0;
    ssize_t ret = 0, want = 1;          /* want: >= 0 result, -1 error */
    int decided = 0;

    for (i = 0; i < NEV; i++) vev[i] = EV_SOCK;
    for (i = 0; i < BODY; i++) orig[i] = body[i] = (char)nd_u8();
    body[BODY] = 0x5a;
    for (i = 0; i < NRX; i++)
    {
        vrx_draw(&vrx[i]);
        vrx[i].kind = RX_MSG;
        VRT_ASSUME(vrx[i].m.cls != 0);
        /* all but the last response continue the transfer (one that does not is decided as the last of a shorter transfer) */
        if (i + 1 < NRX) { vrx[i].m.cls = 2; vrx[i].m.det = dets[i]; }
        vrx[i].m.type = RTYPE; vrx[i].m.id = 40000 + i; vrx[i].m.has_op = 0; vrx[i].m.has_b1 = b1p[i]; vrx[i].m.has_b2 = b2p[i];
        vrx[i].m.plen = plens[i];
        if (b1v[i] >= 0) vrx[i].m.b1 = (unsigned)b1v[i];
        if (b2v[i] >= 0) vrx[i].m.b2 = (unsigned)b2v[i];
    }
    vrx_match = 1;
    ret = coap_client_create(&client, "::1", "5683");
    coap_msg_create(&req);
    coap_msg_create(&resp);
    coap_msg_set_type(&req, RTYPE == COAP_MSG_ACK ? COAP_MSG_CON : COAP_MSG_NON);
    coap_msg_set_code(&req, COAP_MSG_REQ, METHOD);
    coap_msg_add_op(&req, COAP_MSG_URI_PATH, 1, "p");
    expect = body[x];
#ifdef FAILAT
    coap_msg_add_op(&req, COAP_MSG_URI_PATH, 1, "q");
    (void)expect; (void)decided; (void)want; (void)orig; (void)sent; (void)szx; (void)phase2; (void)start;
    vmem_fail_at = vmem_allocs + FAILAT;
#endif
    ret = coap_client_exchange_blockwise(&client, &req, &resp, SZ1, SZ2, body, BODY, 0);

#ifdef FAILAT
    VRT_ASSERT(vmem_any_failed ? ret < 0 : 1, "a failed allocation is reported");
    if (vmem_any_failed) VRT_WITNESS_POINT("an allocation failed");
#else
    for (i = 0; i < NRX && !decided; i++)
    {
        vmsg_t *m = &vrx[i].m, t;
        unsigned num = 0, more = 0, rszx = 0, size = 16u << szx, pl = 0, last = 0, ok = 0;
        VRT_ASSERT(vtx_n > i, "the next block is requested");
        t = vtx[i];
        VRT_ASSERT(t.cls == 0 && t.det == METHOD && t.has_op == 1 && t.op == COAP_MSG_URI_PATH, "every request carries the method and options of the original");
        if (!phase2)
        {
            last = start + size >= BODY;
            pl = last ? BODY - start : size;
            VRT_ASSERT(t.has_b1 == 1 && t.b1 == to_val(start, !last, szx), "block number, more flag and size describe the slice");
            VRT_ASSERT(last ? t.has_b2 == 1 && t.b2 == to_val(0, 0, LG(SZ2)) : !t.has_b2, "the last block offers a block size for the response");
            VRT_ASSERT(t.plen == pl, "slice length");
            for (j = 0; j < PMAX; j++) if (j < pl) VRT_ASSERT(t.pay[j] == orig[start + j], "the blocks are the body, in order");
        }
        else
            VRT_ASSERT(t.has_b2 == 1 && t.b2 == to_val(start, 0, szx) && !t.has_b1 && t.plen == 0, "the block that follows is requested");
        if (m->cls != 2) { want = 0; decided = 1; break; }
        if (METHOD == 1) ok = m->det == 31 || m->det == 5; else ok = m->det == 31 || m->det == 1 || m->det == 4;
        if (!ok) { want = 0; decided = 1; break; }
        if (!phase2)
        {
            rszx = m->b1 & 7; num = m->b1 >> 4;
            if (!m->has_b1 || (m->b1 & 7) == 7) { want = -1; decided = 1; break; }
            if (rszx < szx) szx = rszx;
            if ((num << (szx + 4)) != start) { want = -1; decided = 1; break; }
            start += pl;
            if (start < BODY) continue;
            sent = 1;
            if (plens[i] == 0) { want = 0; decided = 1; break; }
            phase2 = 1; start = 0; szx = LG(SZ2);
        }
        rszx = m->b2 & 7; num = m->b2 >> 4; more = (m->b2 >> 3) & 1;
        if (!m->has_b2 || (m->b2 & 7) == 7) { want = -1; decided = 1; break; }
        if (rszx < szx) szx = rszx;
        size = 16u << szx;
        if ((num << (szx + 4)) != start || plens[i] > size || (more && plens[i] != size) || start + plens[i] > BODY) { want = -1; decided = 1; break; }
        if (x >= start && x < start + plens[i]) expect = m->pay[x - start];
        start += plens[i];
        have = 1;
        if (!more) { want = start; decided = 1; }
    }
    if (decided)
    {
        VRT_ASSERT(want < 0 ? ret < 0 : ret == want, "result of the transfer");
        VRT_ASSERT(vtx_n == vrx_n && !vev_done, "no further request");
#ifdef W_END
        VRT_WITNESS_POINT("transfer ended");
#elif METHOD == 1
        if (ret > 0) VRT_WITNESS_POINT("body received");
#else
        if (sent) VRT_WITNESS_POINT("body sent");
#endif
    }
    else VRT_ASSERT(ret < 0 && vev_done, "the transfer goes on");
    VRT_ASSERT(body[x] == expect, "the body is the payloads in order and nothing else is written");
    VRT_ASSERT(body[BODY] == 0x5a, "nothing is written beyond the body");
#endif
    coap_msg_destroy(&req);
    coap_msg_destroy(&resp);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "no pool block is lost");
    (void)have;
}
