/* client_exchange: coap_client_exchange() against a reference automaton, for a sequence of NEV events (datagram
 * arrives / timer expires / both; pinned by the configuration), every content of those datagrams, and any send failing. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "msgio.h"
#include "vclient.h"
#include "coap_client.h"

static int recognised(unsigned n)
{
    return n == 1 || n == 3 || n == 4 || n == 5 || n == 7 || n == 8 || n == 11 || n == 12 || n == 14 || n == 15 || n == 17 ||
           n == 20 || n == 23 || n == 27 || n == 28 || n == 35 || n == 39 || n == 60;
}
static int is_empty(const vmsg_t *m, unsigned type, unsigned id)
{
    return m->type == type && m->id == id && m->cls == 0 && m->det == 0 && m->tkl == 0 && m->plen == 0 && !m->has_op && !m->has_b1 && !m->has_b2;
}

static coap_client_t client;
void harness(void)
{
    coap_msg_t req, resp;
    unsigned i = 0, j = 0, con = 0, rx = 0, retrans = 0, wait_ack = 0, code = nd_range(0, 4), plen = nd_range(0, PMAX);
    unsigned e_tx = 0, done = 0;
    int ret = 0, want = 0;          /* want: 1 success, 0 undecided, <0 failure */
    int exact = 0, fail_at = 0;
    vrx_t last;
    char pay[2] = { 'x', 'y' };

    con = CON;
    { static const unsigned evs[NEV] = { EVS }; for (i = 0; i < NEV; i++) vev[i] = evs[i]; }
    for (i = 0; i < NRX; i++) vrx_draw(&vrx[i]);
    ret = coap_client_create(&client, "::1", "5683");
    VRT_ASSERT(ret == 0, "client created");
    coap_msg_create(&req);
    coap_msg_create(&resp);
    coap_msg_set_type(&req, con ? COAP_MSG_CON : COAP_MSG_NON);
    coap_msg_set_code(&req, COAP_MSG_REQ, code);
    coap_msg_set_payload(&req, pay, code == 0 ? 0 : plen);
    VRT_ASSUME(code != 0);
#ifdef SENDFAIL
    vsend_may_fail = 1;
#endif
    ret = coap_client_exchange(&client, &req, &resp);

    /* the request went out first, with a fresh token */
    if (vsend_failed && vtx_n == 0)
    {
        VRT_ASSERT(ret < 0, "a request that cannot be sent is reported");
        goto end;
    }
    VRT_ASSERT(vtx_n >= 1 && vmsg_eq(&vtx[0], &req), "the request is sent first");
    VRT_ASSERT(coap_msg_get_token_len(&req) == 4 && coap_msg_get_type(&req) == (con ? COAP_MSG_CON : COAP_MSG_NON), "the request carries a token");
    e_tx = 1;
    wait_ack = con;
    for (i = 0; i < NEV && !done; i++)
    {
        vrx_t rr, *r = &rr;
        vmsg_t *m = &rr.m, t;
        int tok = 1, rej = 0, bad = 0;
        if (i >= vev_n) { VRT_ASSERT(fail_at || 0, "the client stops waiting only when the exchange is decided"); break; }
        if (vev[i] == EV_TIMER)
        {
            if (!wait_ack) { want = -ETIMEDOUT; exact = 1; done = 1; }
            else if (retrans == 4) { want = -ETIMEDOUT; exact = 1; done = 1; }
            else
            {
                retrans++;
                if (vtx_n <= e_tx) { VRT_ASSERT(vsend_failed, "an unacknowledged request is retransmitted when its timer expires"); want = -1; done = 1; }
                else VRT_ASSERT((t = vtx_get(e_tx), vmsg_eq(&t, &req)), "a retransmission is the same message");
                e_tx++;
            }
            continue;
        }
        if (rx >= NRX) break;
        rr = vrx_get(rx++);
        t = vtx_get(e_tx);
        if (r->kind == RX_AGAIN) continue;
        if (r->kind == RX_ERR) { want = -1; done = 1; continue; }
        if (r->kind == RX_BAD)
        {
            want = -1; done = 1;
            if (r->rawlen >= 4 && ((r->raw[0] >> 4) & 3) == COAP_MSG_CON)
            {
                if (vtx_n <= e_tx) VRT_ASSERT(vsend_failed, "a malformed confirmable message is reset");
                else VRT_ASSERT(is_empty(&t, COAP_MSG_RST, ((unsigned)(unsigned char)r->raw[2] << 8) | (unsigned char)r->raw[3]), "a malformed confirmable message is reset by its ID");
                e_tx++;
            }
            continue;
        }
        if (m->tkl != coap_msg_get_token_len(&req)) tok = 0;
        for (j = 0; j < 4; j++) if (m->token[j] != coap_msg_get_token(&req)[j]) tok = 0;
        if (m->cls == 0) tok = 0;                                   /* not a response */
        bad = m->has_op && (m->op & 1) && !recognised(m->op);       /* unrecognised critical option */
        if (m->id == coap_msg_get_msg_id(&req))
        {
            done = 1; want = -1;
            if (m->type == COAP_MSG_RST) { want = -ECONNRESET; exact = 1; }
            else if (m->type == COAP_MSG_ACK && con && !wait_ack) { done = 0; want = 0; }     /* duplicate acknowledgement */
            else if (m->type == COAP_MSG_ACK && con && m->cls == 0 && m->det == 0) { done = 0; want = 0; wait_ack = 0; }
            else if (m->type == COAP_MSG_ACK && con && tok && !bad) want = 1;
            else rej = 1;
        }
        else if (tok)
        {
            done = 1; want = -1;
            if (bad || m->type == COAP_MSG_ACK || m->type == COAP_MSG_RST) rej = 1;
            else if (m->type == COAP_MSG_NON) want = 1;
            else
            {
                want = 1;
                if (vtx_n <= e_tx) { VRT_ASSERT(vsend_failed, "a confirmable response is acknowledged"); want = -1; }
                else VRT_ASSERT(is_empty(&t, COAP_MSG_ACK, m->id), "a confirmable response is acknowledged by its ID");
                e_tx++;
            }
        }
        else rej = 1;
        if (rej && m->type == COAP_MSG_CON)
        {
            if (vtx_n <= e_tx) { VRT_ASSERT(vsend_failed, "a rejected confirmable message is reset"); want = -1; done = 1; }
            else VRT_ASSERT(is_empty(&t, COAP_MSG_RST, m->id), "a rejected confirmable message is reset by its ID");
            e_tx++;
        }
    }
    if (want == 0) VRT_ASSERT(vev_done && ret < 0, "the client keeps waiting until the exchange is decided");
    else
    {
        VRT_ASSERT(!vev_done, "a decided exchange returns at once");
        if (want == 1) VRT_ASSERT(ret == 0, "the matching response is delivered");
        else VRT_ASSERT(ret < 0, "no success without a matching response");
        if (exact) VRT_ASSERT(ret == want, "timeout and reset are reported as such");
    }
    VRT_ASSERT(vtx_n <= e_tx, "nothing else is sent");
    if (ret == 0)
    {
        VRT_ASSERT(rx > 0 && (last = vrx_get(rx - 1), vmsg_eq(&last.m, &resp)), "the delivered response is the message received");
#if W_ANSWERED
        VRT_WITNESS_POINT("request answered");
#endif
    }
    /* timers */
    VRT_ASSERT(vt_n >= 1, "a timer runs while waiting");
    if (con)
    {
        unsigned r = 0;
        VRT_ASSERT(vt_ms[0] >= 2000 && vt_ms[0] <= 3000, "initial timeout 2 to 3 s");
        for (i = 1; i < NTIM; i++)
            if (i < vt_n)
            {
                if (i <= retrans) VRT_ASSERT(vt_ms[i] == 2 * vt_ms[i - 1], "the timeout doubles");
                else VRT_ASSERT(vt_ms[i] == 30000 && i == vt_n - 1, "30 s for a separate response");
            }
    }
    else VRT_ASSERT(vt_n == 1 && vt_ms[0] == 30000, "30 s for a response");
#if W_TIMEOUT
    if (want == -ETIMEDOUT && wait_ack == con) VRT_WITNESS_POINT("timed out");
#endif
end:
    coap_msg_destroy(&req);
    coap_msg_destroy(&resp);
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "no pool block is lost");
    coap_client_destroy(&client);
    VRT_ASSERT(v_open_sd == 0 && v_open_tfd == 0, "descriptors closed");
}
