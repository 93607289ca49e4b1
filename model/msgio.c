#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "msgio.h"
#ifndef VTXLEN
#define VTXLEN 4
#endif
#ifdef PATHS
#define VMSG_NOPATH(m) (!(m)->has_path)
#else
#define VMSG_NOPATH(m) 1
#endif
vrx_t vrx[NRX];
unsigned vrx_n;
static vrx_t vcur;                  /* the datagram being received */
vmsg_t vtx[NTX];
unsigned vtx_n;
int vsend_may_fail, vsend_failed;
unsigned vsend_n, vsend_fail_at;
vmsg_t vfmt;
int vrx_match;
unsigned char vfmt_serial;

int v_errno_set(int e) { errno = e; return -1; }

void vmsg_wf(const vmsg_t *m)
{
    /* what coap_msg_parse guarantees about a message it accepts */
    VRT_ASSUME(m->cls == 0 || m->cls == 2 || m->cls == 4 || m->cls == 5);
    if (m->cls == 0 && m->det == 0)
        VRT_ASSUME(m->type != COAP_MSG_NON && m->tkl == 0 && !m->has_op && VMSG_NOPATH(m) && !m->has_b1 && !m->has_b2 && m->plen == 0);
    else
        VRT_ASSUME(m->type != COAP_MSG_RST);
}

void vmsg_draw(vmsg_t *m)
{
    unsigned i = 0;
    m->type = nd_range(0, 3); m->cls = nd_range(0, 7); m->det = nd_range(0, 31); m->id = nd_range(0, 65535); m->tkl = nd_range(0, 8);
    for (i = 0; i < 8; i++) m->token[i] = i < 5 ? (char)nd_u8() : 0;
#ifdef NOOPS
    m->has_op = 0; m->op = 0;
#else
    m->has_op = nd_bool(); m->op = nd_range(0, 65535);
#endif
#ifdef BLOCKS
    m->has_b1 = nd_bool(); m->b1 = nd_range(0, 0xffffff); m->has_b2 = nd_bool(); m->b2 = nd_range(0, 0xffffff);
#else
    m->has_b1 = 0; m->b1 = 0; m->has_b2 = 0; m->b2 = 0;
#endif
#ifdef PATHS
    m->has_path = 0; m->path = 0;
    VRT_ASSUME(m->op != COAP_MSG_URI_PATH);
#endif
    m->plen = nd_range(0, PMAX);
    for (i = 0; i < PMAX; i++) m->pay[i] = (char)nd_u8();
    vmsg_wf(m);
    VRT_ASSUME(m->op != COAP_MSG_BLOCK1 && m->op != COAP_MSG_BLOCK2);
}

void vrx_draw(vrx_t *r)
{
    unsigned i = 0;
    r->kind = nd_range(0, 3);
    r->rawlen = nd_range(0, 6);
    for (i = 0; i < 4; i++) r->raw[i] = (char)nd_u8();
    vmsg_draw(&r->m);
}

/* arrays of structures are only ever indexed by constants: cheaper, and CBMC 6.11 simplifies reads of arrays nested in
 * symbolically indexed structures wrongly (see DESIGN.md) */
vrx_t vrx_get(unsigned k)
{
    vrx_t r = {0};
    unsigned q = 0;
    for (q = 0; q < NRX; q++) if (q == k) r = vrx[q];
    return r;
}
vmsg_t vtx_get(unsigned k)
{
    vmsg_t r = {0};
    unsigned q = 0;
    for (q = 0; q < NTX; q++) if (q == k) r = vtx[q];
    return r;
}

int v_take(char *buf, size_t len)
{
    unsigned k = vrx_n, i = 0;
    VRT_ASSERT(k < NRX, "model: more datagrams read than delivered");
    if (k >= NRX) return v_errno_set(EAGAIN);
    vrx_n++;
    vcur = vrx_get(k);
    if (vrx_match)
    {
        /* a response to the last request: its token, and its ID if it is an acknowledgement */
        vmsg_t t = vtx_get(vtx_n - 1);
        unsigned j = 0;
        vcur.m.tkl = t.tkl;
        for (j = 0; j < 8; j++) vcur.m.token[j] = t.token[j];
        if (vcur.m.type == COAP_MSG_ACK) vcur.m.id = t.id;
    }
    if (vcur.kind == RX_AGAIN) return v_errno_set(EAGAIN);
    if (vcur.kind == RX_ERR) return v_errno_set(ECONNREFUSED);
    if (vcur.kind == RX_BAD)
    {
        for (i = 0; i < 4; i++) if (i < vcur.rawlen) buf[i] = vcur.raw[i];
        return (int)vcur.rawlen;
    }
    return 4;
}

int v_put(const char *buf, size_t len)
{
    unsigned q = 0;
    VRT_ASSERT(len == VTXLEN && (unsigned char)buf[0] == vfmt_serial, "what is sent is the message that was just formatted");
    if (++vsend_n == vsend_fail_at) { vsend_failed = 1; return v_errno_set(ENETUNREACH); }
    if (vsend_may_fail && nd_bool()) { vsend_failed = 1; return v_errno_set(ENETUNREACH); }
    VRT_ASSERT(vtx_n < NTX, "model: transmission log large enough");
    for (q = 0; q < NTX; q++) if (q == vtx_n) vtx[q] = vfmt;
    vtx_n++;
    return (int)len;
}

ssize_t coap_msg_parse(coap_msg_t *msg, char *buf, size_t len)
{
    vrx_t *r = &vcur;
    vmsg_t *m = &r->m;
    char z = 0, b[3];
    int ok = 0;
    coap_msg_reset(msg);
    if (r->kind == RX_BAD)
    {
        coap_msg_destroy(msg);
        return -EBADMSG;
    }
    ok = coap_msg_set_type(msg, m->type) == 0 && coap_msg_set_code(msg, m->cls, m->det) == 0 && coap_msg_set_msg_id(msg, m->id) == 0 &&
         coap_msg_set_token(msg, m->token, m->tkl) == 0;
    VRT_ASSERT(ok, "model: well-formed message accepted by the setters");
    ok = 1;                         /* asserted: no need to branch on it */
#ifdef PATHS
    if (m->has_path)
    {
        /* a capital letter stands for a longer segment that starts like the lower-case one */
        char seg[2] = { m->path, 'x' };
        unsigned sl = 1;
        if (m->path >= 'A' && m->path <= 'Z') { seg[0] = (char)(m->path + 32); sl = 2; }
        ok = ok && coap_msg_add_op(msg, COAP_MSG_URI_PATH, sl, seg) == 0;
    }
#endif
    if (m->has_op) ok = ok && coap_msg_add_op(msg, m->op, 0, &z) == 0;
    if (m->has_b1) { b[0] = (char)(m->b1 >> 16); b[1] = (char)(m->b1 >> 8); b[2] = (char)m->b1; ok = ok && coap_msg_add_op(msg, COAP_MSG_BLOCK1, 3, b) == 0; }
    if (m->has_b2) { b[0] = (char)(m->b2 >> 16); b[1] = (char)(m->b2 >> 8); b[2] = (char)m->b2; ok = ok && coap_msg_add_op(msg, COAP_MSG_BLOCK2, 3, b) == 0; }
    ok = ok && coap_msg_set_payload(msg, m->pay, m->plen) == 0;
    if (!ok) { coap_msg_destroy(msg); return -ENOMEM; }
    return 0;
}

void vmsg_snap(vmsg_t *v, coap_msg_t *m)
{
    unsigned i = 0;
    coap_msg_op_t *o = NULL;
    v->type = coap_msg_get_type(m); v->cls = coap_msg_get_code_class(m); v->det = coap_msg_get_code_detail(m);
    v->id = coap_msg_get_msg_id(m); v->tkl = coap_msg_get_token_len(m); v->plen = (unsigned)coap_msg_get_payload_len(m);
    for (i = 0; i < 8; i++) v->token[i] = i < v->tkl ? coap_msg_get_token(m)[i] : 0;
    for (i = 0; i < PMAX; i++) v->pay[i] = i < v->plen ? coap_msg_get_payload(m)[i] : 0;
    v->has_op = v->has_b1 = v->has_b2 = 0; v->op = v->b1 = v->b2 = 0;
#ifdef PATHS
    v->has_path = 0; v->path = 0;
#endif
    for (o = coap_msg_get_first_op(m); o != NULL; o = coap_msg_op_get_next(o))
    {
        unsigned n = coap_msg_op_get_num(o), l = coap_msg_op_get_len(o), x = 0;
        for (i = 0; i < 3; i++) if (i < l) x = (x << 8) | (unsigned char)coap_msg_op_get_val(o)[i];
#ifdef PATHS
        if (n == COAP_MSG_URI_PATH) { v->has_path++; v->path = l ? coap_msg_op_get_val(o)[0] : 0; continue; }
#endif
        if (n == COAP_MSG_BLOCK1) { v->has_b1++; v->b1 = x; }
        else if (n == COAP_MSG_BLOCK2) { v->has_b2++; v->b2 = x; }
        else { v->has_op++; v->op = n; }
    }
}

int vmsg_eq(const vmsg_t *v, coap_msg_t *m)
{
    vmsg_t s;
    unsigned i = 0;
    int eq = 1;
    vmsg_snap(&s, m);
    eq = s.type == v->type && s.cls == v->cls && s.det == v->det && s.id == v->id && s.tkl == v->tkl && s.plen == v->plen &&
         s.has_op == v->has_op && (!s.has_op || s.op == v->op) && s.has_b1 == v->has_b1 && (!s.has_b1 || s.b1 == v->b1) &&
         s.has_b2 == v->has_b2 && (!s.has_b2 || s.b2 == v->b2);
#ifdef PATHS
    eq = eq && s.has_path == v->has_path && (!s.has_path || s.path == v->path);
#endif
    for (i = 0; i < 8; i++) if (i < v->tkl && s.token[i] != v->token[i]) eq = 0;
    for (i = 0; i < PMAX; i++) if (i < v->plen && s.pay[i] != v->pay[i]) eq = 0;
    return eq;
}

ssize_t coap_msg_format(coap_msg_t *msg, char *buf, size_t len)
{
    vmsg_snap(&vfmt, msg);
    /* coap_msg_format refuses anything else; asserting it instead of failing keeps the model free of a branch */
    VRT_ASSERT(coap_msg_is_empty(msg) ? vfmt.type != COAP_MSG_NON && !vfmt.tkl && !vfmt.has_op && !vfmt.has_b1 && !vfmt.has_b2 && !vfmt.plen
                                      : vfmt.type != COAP_MSG_RST, "only well-formed messages are sent");
    if (len < VTXLEN) return -ENOSPC;
    buf[0] = (char)++vfmt_serial;
    return VTXLEN;
}
