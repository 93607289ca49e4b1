/* server_run: coap_server_run() against a reference automaton for a sequence of NEV events (a datagram from a client,
 * a timer expiring).  All but the last datagram have a pinned type, code, ID and path (token, payload and the handler's
 * answers symbolic); the last one is arbitrary where the configuration says so. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "msgio.h"
#include "vserver.h"
#include "coap_server.h"
#ifndef NTRANS
#define NTRANS 8
#endif
#define ANY 99
#ifndef TKL
#define TKL 3                       /* token length of an arbitrary message */
#endif
const vsev_t vsev[NEV] = { EVS };
static const struct { int kind, type, cls, det; long id; int path, op, same; unsigned rawlen, raw0; } tmpl[NRX] = { TMPL };
static coap_server_t server;
static unsigned h_n, h_client[NRX], h_det[NRX];
static char h_pay[NRX];
static vmsg_t h_req[NRX];

static int handler(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    unsigned q = 0, k = h_n, det = 5 + k;
    char p = (char)nd_u8();
    vmsg_t m;
    int c = v_client_of(&trans->client_sin);
    VRT_ASSERT(k < NRX, "the handler is called at most once per datagram");
    vmsg_snap(&m, req);
    for (q = 0; q < NRX; q++) if (q == k) { h_req[q] = m; h_client[q] = (unsigned)c; h_det[q] = det; h_pay[q] = p; }
    h_n++;
#ifdef HFAIL
    if (h_n == HFAIL) return -EIO;
#endif
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, det);
    coap_msg_set_payload(resp, &p, 1);
    return 0;
}

static int recognised(unsigned n)
{
    return n == 1 || n == 3 || n == 4 || n == 5 || n == 7 || n == 8 || n == 11 || n == 12 || n == 14 || n == 15 || n == 17 ||
           n == 20 || n == 23 || n == 27 || n == 28 || n == 35 || n == 39 || n == 60;
}
static int veq(const vmsg_t *a, const vmsg_t *b, int pay)
{
    unsigned i = 0;
    int eq = a->type == b->type && a->cls == b->cls && a->det == b->det && a->id == b->id && a->tkl == b->tkl && a->has_op == b->has_op &&
             (!a->has_op || a->op == b->op) && a->has_path == b->has_path && (!a->has_path || a->path == b->path) && a->has_b1 == b->has_b1 && a->has_b2 == b->has_b2;
    for (i = 0; i < 8; i++) if (i < a->tkl && a->token[i] != b->token[i]) eq = 0;
    if (pay)
    {
        if (a->plen != b->plen) eq = 0;
        for (i = 0; i < PMAX; i++) if (i < a->plen && a->pay[i] != b->pay[i]) eq = 0;
    }
    return eq;
}

/* reference state per client */
static struct { int active, has_req, armed; unsigned retr, last; long ms; vmsg_t req, resp; } ref[NCLIENT];
static unsigned e_tx, e_h, e_send, e_t;

/* the server must have sent m to client c while handling event ev; 0 if that send failed */
static int expect(unsigned c, const vmsg_t *m, unsigned ev, int pay)
{
    vmsg_t t;
    unsigned q = 0, to = 0, at = 0;
    if (++e_send == vsend_fail_at) return 0;
    VRT_ASSERT(e_tx < vtx_n, "the message due is sent");
    t = vtx_get(e_tx);
    for (q = 0; q < NTX; q++) if (q == e_tx) { to = vtx_to[q]; at = vtx_ev[q]; }
    VRT_ASSERT(to == c, "it is sent to the client it belongs to");
    VRT_ASSERT(at == ev + 1, "it is sent when it is due");
    VRT_ASSERT(t.type == m->type, "type of the message sent");
    VRT_ASSERT(t.id == m->id, "message ID of the message sent");
    VRT_ASSERT(veq(&t, m, pay), "contents of the message sent");
    e_tx++;
    ref[c].last = ev + 1;
    return 1;
}
static int expect_empty(unsigned c, unsigned type, unsigned id, unsigned ev)
{
    vmsg_t m = {0};
    m.type = type; m.id = id;
    return expect(c, &m, ev, 1);
}
static void expect_timer(unsigned c, unsigned ev)
{
    unsigned q = 0, cl = 0, at = 0;
    long ms = 0;
    VRT_ASSERT(e_t < vt_n, "the acknowledgement timer is started");
    for (q = 0; q < NTIM; q++) if (q == e_t) { cl = vt_cl[q]; at = vt_at[q]; ms = vt_ms[q]; }
    VRT_ASSERT(cl == c && at == ev + 1, "the timer of that client, at that moment");
    if (ref[c].retr == 0) VRT_ASSERT(ms >= 2000 && ms < 3000, "first timeout between 2 and 3 seconds");
    else VRT_ASSERT(ms == 2 * ref[c].ms, "each timeout doubles the previous one");
    ref[c].ms = ms;
    e_t++;
}

void harness(void)
{
    unsigned i = 0, j = 0, c = 0, rx = 0, n = 0, old = 0, sep = 0;
    int ret = 0;

    for (i = 0; i < NRX; i++)
    {
        vmsg_t *m = &vrx[i].m;
        if (tmpl[i].same) { vrx[i] = vrx[tmpl[i].same - 1]; continue; }     /* a copy of an earlier datagram */
        vrx_draw(&vrx[i]);
        if (tmpl[i].kind != ANY) vrx[i].kind = (unsigned)tmpl[i].kind;
        m->tkl = tmpl[i].cls == ANY ? TKL : tmpl[i].cls == 0 && tmpl[i].det == 0 ? 0 : 1 + i;
        m->plen = m->tkl != 0 && tmpl[i].path != 0;
        if (tmpl[i].rawlen) { vrx[i].rawlen = tmpl[i].rawlen; vrx[i].raw[0] = (char)tmpl[i].raw0; }
        m->has_op = tmpl[i].op; m->has_b1 = m->has_b2 = 0;
        m->has_path = tmpl[i].path != 0; m->path = (char)tmpl[i].path;
        if (tmpl[i].op == 0) m->op = 0;
        if (tmpl[i].type != ANY) m->type = (unsigned)tmpl[i].type;
        if (tmpl[i].cls != ANY) m->cls = (unsigned)tmpl[i].cls;
        if (tmpl[i].det != ANY) m->det = (unsigned)tmpl[i].det;
        if (tmpl[i].id >= 0) m->id = (unsigned)tmpl[i].id;
        vmsg_wf(m);
    }
#ifdef SENDFAIL
    vsend_fail_at = SENDFAIL;
#endif
    ret = coap_server_create(&server, handler, "::", "5683");
    VRT_ASSERT(ret == 0, "server created");
#ifdef SEP
    ret = coap_server_add_sep_resp_uri_path(&server, "/s");
    VRT_ASSERT(ret == 0, "path registered");
#endif
#ifdef FAILAT
    vmem_fail_at = vmem_allocs + FAILAT;
#endif
    ret = coap_server_run(&server);
    VRT_ASSERT(ret < 0 && vsev_done, "nothing a client does stops the server");

#ifdef FAILAT
    if (vmem_any_failed) VRT_WITNESS_POINT("an allocation failed");
#else
    for (i = 0; i < NEV; i++)
    {
        vrx_t rr;
        vmsg_t *m = &rr.m, want = {0};
        c = (unsigned)vsev[i].client;
        if (vsev[i].kind == EV_TIMER)
        {
            if (!ref[c].armed) continue;
            if (ref[c].retr < 4)
            {
                ref[c].retr++;
                expect_timer(c, i);
                expect(c, &ref[c].resp, i, 1);
            }
            else { ref[c].active = ref[c].armed = ref[c].has_req = 0; }
            continue;
        }
        rr = vrx_get(rx);
        rx++;
        if (rr.kind == RX_ERR || rr.kind == RX_AGAIN) continue;
        if (!ref[c].active)
        {
            for (n = 0, j = 0; j < NCLIENT; j++) n += ref[j].active;
            if (n >= NTRANS)
            {
                /* the least recently used transaction makes room */
                for (old = NCLIENT, j = 0; j < NCLIENT; j++) if (ref[j].active && (old == NCLIENT || ref[j].last < ref[old].last)) old = j;
                ref[old].active = ref[old].armed = ref[old].has_req = 0;
            }
            ref[c].active = 1; ref[c].last = i + 1;
            ref[c].armed = ref[c].has_req = 0;
        }
        if (rr.kind == RX_BAD)
        {
            if (rr.rawlen >= 4 && ((rr.raw[0] >> 4) & 3) == COAP_MSG_CON)
                expect_empty(c, COAP_MSG_RST, ((unsigned)(unsigned char)rr.raw[2] << 8) | (unsigned char)rr.raw[3], i);
            ref[c].active = ref[c].armed = ref[c].has_req = 0;
            continue;
        }
        ref[c].last = i + 1;
        sep = m->has_path && m->path == 's';
#ifndef SEP
        sep = 0;
#endif
        if (ref[c].has_req && m->id == ref[c].req.id && m->type <= COAP_MSG_NON)
        {
            int ok = 1;
            /* a copy of the last request: answered, but not executed again */
            if (m->type == COAP_MSG_CON) ok = sep ? expect_empty(c, COAP_MSG_ACK, m->id, i) : expect(c, &ref[c].resp, i, 1);
            if (!ok) ref[c].active = ref[c].armed = ref[c].has_req = 0;
            continue;
        }
        if (ref[c].has_req && m->id == ref[c].resp.id && (m->type == COAP_MSG_ACK || m->type == COAP_MSG_RST)) { ref[c].armed = 0; continue; }
        if (m->type == COAP_MSG_ACK || m->type == COAP_MSG_RST || m->cls != COAP_MSG_REQ || m->det == 0)
        {
            if (m->type == COAP_MSG_CON) expect_empty(c, COAP_MSG_RST, m->id, i);
            ref[c].active = ref[c].armed = ref[c].has_req = 0;
            continue;
        }
        ref[c].armed = ref[c].has_req = 0;
        if (m->type == COAP_MSG_CON && sep && !expect_empty(c, COAP_MSG_ACK, m->id, i)) { ref[c].active = 0; continue; }
        want.type = m->type == COAP_MSG_NON ? COAP_MSG_NON : sep ? COAP_MSG_CON : COAP_MSG_ACK;
        want.tkl = m->tkl;
        for (j = 0; j < 8; j++) want.token[j] = m->token[j];
        if (m->has_op && (m->op & 1) && !recognised(m->op)) { want.cls = 4; want.det = 2; }
        else
        {
            vmsg_t h = {0};
            unsigned q = 0, hc = 0;
            VRT_ASSERT(e_h < h_n, "the handler is called for a new request");
            for (q = 0; q < NRX; q++) if (q == e_h) { h = h_req[q]; hc = h_client[q]; want.det = h_det[q]; want.pay[0] = h_pay[q]; }
            VRT_ASSERT(hc == c && veq(&h, m, 1), "the handler sees the request of that client");
            want.cls = 2; want.plen = 1;
            e_h++;
#ifdef HFAIL
            if (e_h == HFAIL) { ref[c].active = 0; continue; }
#endif
        }
        if (want.type == COAP_MSG_ACK) want.id = m->id;
        else
        {
            vmsg_t t = vtx_get(e_tx);       /* any ID of the server's own choice */
            want.id = t.id;
        }
        if (!expect(c, &want, i, want.cls == 2)) { ref[c].active = 0; continue; }
        if (want.cls != 2) { vmsg_t t = vtx_get(e_tx - 1); want = t; }
        ref[c].has_req = 1; ref[c].req = *m; ref[c].resp = want; ref[c].retr = 0;
        if (want.type == COAP_MSG_CON) { ref[c].armed = 1; expect_timer(c, i); }
    }
    VRT_ASSERT(e_tx == vtx_n && e_send == vsend_n, "nothing else is sent");
    VRT_ASSERT(e_h == h_n, "the handler is not called again");
    VRT_ASSERT(e_t == vt_n, "no other timer is started");
    VRT_WITNESS_POINT("all events handled");
#endif
    coap_server_destroy(&server);
    VRT_ASSERT(v_open_sd == 0 && v_open_tfd == 0, "every descriptor is closed");
    VRT_ASSERT(vmem_small_live == 0 && vmem_medium_live == 0 && vmem_large_live == 0 && !vmem_bad_free, "no pool block is lost");
}
