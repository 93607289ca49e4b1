/* server_block: a library-level blockwise transfer served by coap_server_run() / coap_server_trans_handle_blockwise().
 * NRX requests of one client, of which all but the last have pinned block options (payload contents always symbolic;
 * payload lengths pinned), against a reference of the transfer. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "msgio.h"
#include "vserver.h"
#include "coap_server.h"
#define ANY (-1)
#define NONE (-2)
#define LG(s) ((s) == 16 ? 0 : (s) == 32 ? 1 : (s) == 64 ? 2 : (s) == 128 ? 3 : (s) == 256 ? 4 : (s) == 512 ? 5 : 6)
const vsev_t vsev[NEV] = { EVS };
static const struct { unsigned det; char path; int b1, b2; unsigned plen; } tmpl[NRX] = { TMPL };
static coap_server_t server;
static char body[BODY + 1], rbody[RBODY + 1], got[VMEM_LARGE];
static unsigned h_n, rx_n, rx_len;

static int block_rx(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    unsigned i = 0;
    VRT_ASSERT(coap_server_trans_get_body_end(trans) <= VMEM_LARGE, "the body fits its buffer");
    rx_len = (unsigned)coap_server_trans_get_body_end(trans);
    for (i = 0; i < VMEM_LARGE; i++) if (i < rx_len) got[i] = coap_server_trans_get_body(trans)[i];
    rx_n++;
#ifdef RXERR
    coap_msg_set_code(resp, COAP_MSG_CLIENT_ERR, COAP_MSG_FORBIDDEN);
#else
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CHANGED);
#endif
    for (i = 0; i < RBODY; i++) coap_server_trans_get_body(trans)[i] = rbody[i];
    coap_server_trans_set_body_end(trans, RBODY);
    return 0;
}
static int handler(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    h_n++;
    return coap_server_trans_handle_blockwise(trans, req, resp, SZ1, SZ2, body, BODY, block_rx);
}

void harness(void)
{
    unsigned i = 0, j = 0, x = nd_range(0, VMEM_LARGE - 1), e_h = 0, e_rx = 0;
    unsigned st = 0, s1 = 0, s2 = 0, z1 = 0, z2 = 0, end = 0, meth = 0;     /* st: 0 none, 1 request body, 2 response body */
    char path = 0, in = 0, *out = NULL;                                      /* in: byte x of the request body */
    int ret = 0, alive = 1;

    for (i = 0; i < BODY; i++) body[i] = (char)nd_u8();
    for (i = 0; i < RBODY; i++) rbody[i] = (char)nd_u8();
    for (i = 0; i < NRX; i++)
    {
        vmsg_t *m = &vrx[i].m;
        vrx_draw(&vrx[i]);
        vrx[i].kind = RX_MSG;
        m->type = COAP_MSG_CON; m->cls = 0; m->det = tmpl[i].det; m->id = 2000 + i; m->tkl = 2; m->has_op = 0; m->op = 0;
        m->has_path = tmpl[i].path != 0; m->path = tmpl[i].path;
        m->has_b1 = tmpl[i].b1 != NONE; if (tmpl[i].b1 != ANY) m->b1 = (unsigned)tmpl[i].b1 & 0xffffff;
        m->has_b2 = tmpl[i].b2 != NONE; if (tmpl[i].b2 != ANY) m->b2 = (unsigned)tmpl[i].b2 & 0xffffff;
        m->plen = tmpl[i].plen;
    }
    ret = coap_server_create(&server, handler, "::", "5683");
    VRT_ASSERT(ret == 0, "server created");
#ifdef FAILAT
    vmem_fail_at = vmem_allocs + FAILAT;
#endif
    ret = coap_server_run(&server);
#ifdef FAILAT
    VRT_ASSERT(ret < 0 && vsev_done, "the server keeps running");
    if (vmem_any_failed) VRT_WITNESS_POINT("an allocation failed");
#else
    VRT_ASSERT(ret < 0 && vsev_done && vrx_n == NRX, "every request is handled");
    VRT_ASSERT(vtx_n == NRX, "every request is answered once");

    for (i = 0; i < NRX; i++)
    {
        vrx_t rr = vrx[i];
        vmsg_t *m = &rr.m, t = vtx[i];
        unsigned cls = 2, det = 31, e1 = 0, e2 = 0, v1 = 0, v2 = 0, bad = 0, fresh = 0, more = 0, pl = 0;
        if (!st)
        {
            fresh = 1;
            e_h++;
            st = m->det == COAP_MSG_GET ? 2 : 1; meth = m->det; path = m->path; s1 = s2 = 0; z1 = SZ1; z2 = SZ2; end = m->det == COAP_MSG_GET ? BODY : 0; out = body;
        }
        if (m->has_b1 && (m->b1 & 7) == 7) bad = 1;
        else if (m->has_b1 && (16u << (m->b1 & 7)) < z1) z1 = 16u << (m->b1 & 7);
        if (!bad && m->has_b2 && (m->b2 & 7) == 7) bad = 1;
        else if (!bad && m->has_b2 && (16u << (m->b2 & 7)) < z2) z2 = 16u << (m->b2 & 7);
        if (bad || m->det != meth || m->path != path) { cls = 4; det = 0; st = 0; }
        else
        {
            if (st == 1)
            {
                unsigned num = m->has_b1 ? m->b1 >> 4 : 0;
                more = m->has_b1 ? (m->b1 >> 3) & 1 : 0;
                if (num * z1 != s1) { cls = 4; det = COAP_MSG_INCOMPLETE; st = 0; }
                else if (m->plen == 0) { cls = 4; det = 0; st = 0; }
                else if (s1 + m->plen > VMEM_LARGE) { cls = 4; det = COAP_MSG_REQ_ENT_TOO_LARGE; st = 0; }
                else
                {
                    e1 = 1; v1 = ((s1 >> (LG(z1) + 4)) << 4) | (more << 3) | LG(z1);
                    if (x >= s1 && x < s1 + m->plen) in = m->pay[x - s1];
                    s1 += m->plen;
                    if (!more)
                    {
                        e_rx++;
                        VRT_ASSERT(rx_n >= e_rx, "the application is told when the body is complete");
                        if (rx_n == e_rx)
                        {
                            VRT_ASSERT(rx_len == s1, "the length of the body received");
                            if (x < s1) VRT_ASSERT(got[x] == in, "the body received is the payloads in order");
                        }
#ifdef RXERR
                        cls = 4; det = COAP_MSG_FORBIDDEN; st = 0;
#else
                        det = COAP_MSG_CHANGED;
                        if (RBODY > 0) { st = 2; s2 = 0; end = RBODY; out = rbody; } else st = 0;
#endif
                    }
                }
            }
            if (st == 2)
            {
                unsigned num = m->has_b2 ? m->b2 >> 4 : 0;
                if (num * z2 != s2) { cls = 4; det = 0; st = 0; }
                else
                {
                    e2 = 1;
                    more = s2 + z2 < end;
                    if (s2 + z2 == end) more = (t.b2 >> 3) & 1;         /* a last block that is full may be followed by an empty one */
                    pl = s2 + z2 <= end ? z2 : end - s2;
                    v2 = ((s2 >> (LG(z2) + 4)) << 4) | (more << 3) | LG(z2);
                    VRT_ASSERT(t.plen == pl, "length of the block sent");
                    for (j = 0; j < PMAX; j++) if (j < pl) VRT_ASSERT(t.pay[j] == out[s2 + j], "the block sent is that part of the body");
                    s2 += pl;
                    det = more ? 31 : meth == COAP_MSG_GET ? COAP_MSG_CONTENT : COAP_MSG_CHANGED;
                    if (!more) st = 0;
                }
            }
        }
        VRT_ASSERT(t.cls == cls && t.det == det, "code of the response");
        if (cls == 2) VRT_ASSERT(t.has_b1 == e1 && (!e1 || t.b1 == v1), "Block1 option of the response");
        if (cls == 2) VRT_ASSERT(t.has_b2 == e2 && (!e2 || t.b2 == v2), "Block2 option of the response");
        if (cls == 2 && !e2) VRT_ASSERT(t.plen == 0, "no payload");
        (void)fresh; (void)alive;
    }
    VRT_ASSERT(h_n == e_h && rx_n == e_rx, "the application is called once per transfer");
#ifdef W_RX
    if (rx_n) VRT_WITNESS_POINT("a body was received");
#endif
    VRT_WITNESS_POINT("transfer handled");
#endif
    coap_server_destroy(&server);
    VRT_ASSERT(v_open_sd == 0 && v_open_tfd == 0, "every descriptor is closed");
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && vmem_large_live == 0 && !vmem_bad_free, "no pool block is lost");
}
