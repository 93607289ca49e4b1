/* A connection of the proxy: connection_new, connection_thread_func over scripted HTTP requests, TLS records and CoAP servers.
 *   RQ     requests { method, host, port, path, header fields, body, body padding, forwarded?, result, class, detail, payload,
 *          Block2 value or -1, result of a blockwise exchange, length of a long option, expected status }
 *   SPLIT  the text arrives in two records, cut at a symbolic position; RECLEN n: in records of n bytes; else in one record
 *   TAIL   text after the last complete request
 *   ENDS   the end of the connection is symbolic (timeout, closed, failure), else it is closed
 *   WFAIL  the write of the last response fails;  CFAIL  the first connection to a CoAP server fails
 *   XRES   the result of the exchange is symbolic */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/select.h>
#include "vrt.h"
#include "vheap.h"
#include "vmem.h"
#include "connection.h"
#include "coap_msg.h"

#ifdef RQ
static struct rq { const char *meth, *host, *port, *path, *hdr, *body; int pad, fwd, res, cls, det; const char *pay; int block2, bres, longop, status; } R[] = { RQ };
#define NR ((int)(sizeof(R) / sizeof(R[0])))
#ifndef MAXIN
#define MAXIN 512
#endif
#ifndef MAXOUT
#define MAXOUT 1024
#endif
#ifndef TAIL
#define TAIL ""
#endif
#ifndef BADBLOCK
#define BADBLOCK 0
#endif
#define NOBODY 99999                            /* a transfer in blocks with an empty response */
#define BLEN(q) ((q)->bres == NOBODY ? 0 : (q)->bres)
static char in[MAXIN + 1];                      /* everything the HTTP client sends */
static int n_in;
static char bodies[NR][MAXIN + 1];
static int nbody[NR], npay[NR];
static char txt[NR][4][40];                     /* host, port, path, payload with their symbolic bytes fixed */
static int nw;                                  /* responses written: the request in progress */
static int calls;                               /* exchanges for it */
static int ending, endkind, closed;
static char srv[40], bbody[MAXOUT + 1];

static int eq(const char *a, const char *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }
static int same(const char *a, const char *b) { size_t n = strlen(b); return strlen(a) == n && eq(a, b, n); }
static int low(int c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
static int samei(const char *a, const char *b) { size_t n = strlen(b); int ok = 1; if (strlen(a) != n) return 0; for (size_t i = 0; i < n; i++) ok &= low(a[i]) == low(b[i]); return ok; }
static void put(const char *s) { int n = (int)strlen(s); memcpy(in + n_in, s, n); n_in += n; }
/* \1 any byte, \3 a lower-case letter, \4 one of a A b, \5 one of 1 2 */
static int fill(char *d, const char *t)
{
    int i = 0;
    for (; t[i] != '\0'; i++)
    {
        char c = t[i];
        if (c == 1) c = (char)nd_u8();
        else if (c == 3) { c = (char)nd_u8(); VRT_ASSUME((c >= 'a') & (c <= 'z')); }
        else if (c == 4) { c = (char)nd_u8(); VRT_ASSUME((c == 'a') | (c == 'A') | (c == 'b')); }
        else if (c == 5) { c = (char)nd_u8(); VRT_ASSUME((c == '1') | (c == '2')); }
        d[i] = c;
    }
    d[i] = '\0';
    return i;
}

/* ---- the TLS connection to the HTTP client */
static int rec, reclen, off, got;               /* current record: its start, its length, bytes of it that were read */
static void next_record(void)
{
    rec += reclen;
    got = 0;
#ifdef SPLIT
    reclen = rec == 0 ? off : n_in - rec;
#elif defined(RECLEN)
    reclen = n_in - rec < RECLEN ? n_in - rec : RECLEN;
#else
    reclen = n_in - rec;
#endif
}
size_t gnutls_record_check_pending(gnutls_session_t s) { (void)s; return got > 0 ? reclen - got : 0; }
int v_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)w; (void)e;
    VRT_ASSERT(nfds == 6 && FD_ISSET(5, r), "the socket of the client is waited for");
    VRT_ASSERT(tv != NULL && tv->tv_sec == 7, "the timeout of the socket");
    VRT_ASSERT(!ending, "nothing is read after the end");
    if (got == reclen) next_record();
    if (reclen > 0 && got == 0) return 1;
    /* nothing else comes: what was read of the record will not show up on the socket again */
    ending = 1;
    if (endkind == 0) return 0;
    if (endkind == 3) { errno = EINTR; return -1; }
    return 1;
}
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len)
{
    size_t k = 0;
    (void)s;
    if (ending) return endkind == 1 ? 0 : SOCK_READ_ERROR;
    k = reclen - got;
    VRT_ASSERT(len > 0, "there is space to read into");
    if (k > len) k = len;
    memcpy(buf, in + rec + got, k);
    got += (int)k;
    return (ssize_t)k;
}
static int want_status(struct rq *q);
static int nacc;
static char out[MAXOUT + 1];
ssize_t tls_sock_write_full(tls_sock_t *s, void *buf, size_t len)
{
    int h = 0, cl = -1, st = 0, nb = 0, i = 0;
    const char *wb = NULL;
    struct rq *q = &R[nw];
    (void)s;
    VRT_ASSERT(nw < NR, "one response for a request");
    VRT_ASSERT(len <= MAXOUT, "length of the response");
    if (nw >= NR || len > MAXOUT) return SOCK_WRITE_ERROR;
    memcpy(out, buf, len);
    out[len] = '\0';
    VRT_ASSERT(len >= 16 && eq(out, "HTTP/1.1 ", 9) && out[12] == ' ', "status line");
    st = (out[9] - '0') * 100 + (out[10] - '0') * 10 + (out[11] - '0');
#ifdef FAILAT
    if (st != want_status(q)) { VRT_ASSERT((vheap_failed || vmem_any_failed) && st >= 400 && st <= 599, "out of memory is an error"); nw++; calls = 0; return (ssize_t)len; }
#endif
    VRT_ASSERT(st == want_status(q), "status of the response");
    for (h = 0; h + 4 <= (int)len && !(out[h] == '\r' && out[h + 1] == '\n' && out[h + 2] == '\r' && out[h + 3] == '\n'); h++)
        if (out[h] == '\n')
        {
            static const char name[] = "content-length:";
            int ok = h + 1 + 15 <= (int)len;
            for (i = 0; ok && i < 15; i++) ok = low(out[h + 1 + i]) == name[i];
            if (ok)
            {
                VRT_ASSERT(cl == -1, "one Content-Length");
                cl = 0;
                i = h + 1 + 15;
                while (out[i] == ' ') i++;
                for (; out[i] >= '0' && out[i] <= '9'; i++) cl = cl * 10 + out[i] - '0';
            }
            ok = h + 1 + 5 <= (int)len && low(out[h + 1]) == 'e' && low(out[h + 2]) == 't' && low(out[h + 3]) == 'a' && low(out[h + 4]) == 'g';
            VRT_ASSERT(!ok, "no header field of another response");
        }
    VRT_ASSERT(h + 4 <= (int)len, "end of the header");
    h += 4;
    if (q->fwd && want_status(q) == q->status && q->longop == 0 && !BADBLOCK)
    {
        if (calls == 2 || (calls == 1 && q->res == 1)) { wb = bbody; nb = BLEN(q); }
        else { wb = txt[nw][3]; nb = npay[nw]; }
    }
    VRT_ASSERT((int)len - h == nb && eq(out + h, wb, nb), "body of the response");
    VRT_ASSERT(cl == nb || (cl == -1 && nb == 0 && st == 304), "the response is delimited");
    VRT_ASSERT(!q->fwd || calls > 0, "the request was sent to its server");
    nw++;
    calls = 0;
#ifdef WFAIL
    if (nw == NR) { ending = 1; return nd_bool() ? 0 : SOCK_WRITE_ERROR; }
#endif
    return (ssize_t)len;
}
/* writes a part of what it is given */
static char acc[MAXOUT + 1];
ssize_t tls_sock_write(tls_sock_t *s, void *buf, size_t len)
{
    ssize_t r = 0;
    VRT_ASSERT(len > 0 && nacc + len <= MAXOUT, "length of the response");
    if (len == 0 || nacc + len > MAXOUT) return SOCK_WRITE_ERROR;
    if (nacc == 0) { acc[nacc++] = *(char *)buf; return 1; }
    memcpy(acc + nacc, buf, len);
    r = tls_sock_write_full(s, acc, nacc + len);
    nacc = 0;
    return r <= 0 ? r : (ssize_t)len;
}
void tls_sock_close(tls_sock_t *s) { VRT_ASSERT(nacc == 0, "the whole response is written"); VRT_ASSERT(s != NULL && s->sd == 5 && closed == 0, "the socket of the client is closed once"); closed++; }
void tls_sock_get_addr_string_(char *o, size_t n, sock_in_addr_t a) { (void)a; VRT_ASSERT(n > 2, "space for the address"); o[0] = '*'; o[1] = '\0'; }
const char *sock_strerror(int e) { (void)e; return "e"; }
char *v_strerror(int e) { (void)e; return "e"; }
int thread_block_signals(void) { return 0; }

/* ---- the CoAP servers */
static int active, created;
static char chost[40], cport[40];
static const char *want_port(int i) { return R[i].port == NULL ? "5684" : txt[i][1]; }
int coap_client_create(coap_client_t *c, const char *host, const char *port, const char *key, const char *cert, const char *trust, const char *crl, const char *cn)
{
    VRT_ASSERT(nw < NR, "a connection is for a request");
    VRT_ASSERT(c != NULL && !active, "one connection at a time");
    VRT_ASSERT(R[nw].fwd && samei(host, txt[nw][0]) && same(port, want_port(nw)), "the server of the request");
    VRT_ASSERT(same(key, "k") && same(cert, "c") && same(trust, "t"), "the credentials of the parameters");
    (void)crl; (void)cn;
    created++;
#ifdef CFAIL
    if (created == CFAIL) { ending = 1; return -ECONNREFUSED; }
#endif
    memcpy(chost, host, strlen(host) + 1);
    memcpy(cport, port, strlen(port) + 1);
    active = 1;
    return 0;
}
void coap_client_destroy(coap_client_t *c)
{
    VRT_ASSERT(c != NULL && active, "an active connection is closed");
    /* a connection is kept for the next request to the same server */
#ifdef FAILAT
    if (0)
#endif
    if (nw < NR && R[nw].fwd && !ending)
        VRT_ASSERT(!(samei(chost, txt[nw][0]) && same(cport, want_port(nw))), "the connection to the server of the request is kept");
    active = 0;
}
static int meth(const char *m) { return m[0] == 'G' ? COAP_MSG_GET : m[0] == 'D' ? COAP_MSG_DELETE : m[1] == 'U' ? COAP_MSG_PUT : COAP_MSG_POST; }
static void check_req(coap_msg_t *m, int with_body)
{
    struct rq *q = &R[nw];
    coap_msg_op_t *p = coap_msg_get_first_op(m);
    int found = 0;
    VRT_ASSERT(active && samei(chost, txt[nw][0]) && same(cport, want_port(nw)), "the request goes to the server of its URI");
    VRT_ASSERT(coap_msg_get_code_class(m) == COAP_MSG_REQ && (int)coap_msg_get_code_detail(m) == meth(q->meth), "method of the request");
    for (; p != NULL; p = coap_msg_op_get_next(p))
        if (coap_msg_op_get_num(p) == COAP_MSG_URI_PATH)
            found += coap_msg_op_get_len(p) == strlen(txt[nw][2]) && eq(coap_msg_op_get_val(p), txt[nw][2], strlen(txt[nw][2]));
    VRT_ASSERT(found == 1, "resource of the request");
    if (with_body) VRT_ASSERT((int)coap_msg_get_payload_len(m) == nbody[nw] && eq(coap_msg_get_payload(m), bodies[nw], nbody[nw]), "body of the request");
    else VRT_ASSERT(coap_msg_get_payload_len(m) == 0, "the body is sent in blocks only");
}
static int xres;
static int want_status(struct rq *q)
{
    int r = q->res < 0 ? q->res : q->bres < 0 ? q->bres : 0;
#ifdef XRES
    r = xres;
#endif
    if (!q->fwd || r == 0) return q->status;
    return r == -ETIMEDOUT ? 504 : r == -EBADMSG ? 502 : 501;
}
static char lop[1100];
static int respond(coap_msg_t *m, int cls, int det, int nodata)
{
    struct rq *q = &R[nw];
    int b = q->block2, bad = 0;
    bad |= !(coap_msg_set_code(m, cls, det) == 0);
    if (b >= 0) { char v[1] = { (char)b }; bad |= !(coap_msg_add_op(m, COAP_MSG_BLOCK2, 1, v) == 0); }
    if (q->longop > 0) { memset(lop, 'x', q->longop); bad |= !(coap_msg_add_op(m, COAP_MSG_ETAG, 2, "xy") == 0 && coap_msg_add_op(m, 12, q->longop, lop) == 0); }
    if (!nodata && npay[nw] > 0) bad |= !(coap_msg_set_payload(m, txt[nw][3], npay[nw]) == 0);
#ifndef FAILAT
    VRT_ASSERT(!bad, "response set up");
#endif
    return bad ? -ENOMEM : 0;
}
int coap_client_exchange(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    struct rq *q = &R[nw];
    (void)c;
    VRT_ASSERT(nw < NR && q->fwd, "requests that cannot be translated are not sent");
    if (nw >= NR) return -ECANCELED;
    VRT_ASSERT(calls == 0, "the request is sent once");
    VRT_ASSERT(meth(q->meth) == COAP_MSG_GET || meth(q->meth) == COAP_MSG_DELETE || nbody[nw] <= COAP_MSG_MAX_PAYLOAD_LEN, "a long body is sent in blocks");
    calls++;
    check_req(req, meth(q->meth) == COAP_MSG_PUT || meth(q->meth) == COAP_MSG_POST || nbody[nw] <= COAP_MSG_MAX_PAYLOAD_LEN);
#ifdef XRES
    if (xres < 0) return xres;
#endif
    if (q->res < 0) return q->res;
    if (q->bres != 0 && meth(q->meth) != COAP_MSG_GET && q->block2 < 0) return respond(resp, COAP_MSG_CLIENT_ERR, COAP_MSG_REQ_ENT_TOO_LARGE, 1);
    return respond(resp, q->cls, q->det, 0);
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp, unsigned s1, unsigned s2, char *body, size_t len, int have)
{
    struct rq *q = &R[nw];
    (void)c;
    VRT_ASSERT(nw < NR && q->fwd && q->bres != 0, "a transfer in blocks is asked for");
    if (nw >= NR) return -ECANCELED;
    VRT_ASSERT(active && samei(chost, txt[nw][0]) && same(cport, want_port(nw)), "the request goes to the server of its URI");
    check_req(req, 0);
    if (meth(q->meth) == COAP_MSG_GET)
    {
        VRT_ASSERT(calls == 1 && have && len == 8192, "the transfer is continued");
        VRT_ASSERT(s2 == 16u << (q->block2 & 7), "block size of the server");
    }
    else
    {
        VRT_ASSERT(calls == (q->res != 1) && !have, "the request is sent in blocks");
        VRT_ASSERT(s1 >= 16 && s1 <= 1024 && (s1 & (s1 - 1)) == 0 && s2 >= 16 && s2 <= 1024 && (s2 & (s2 - 1)) == 0, "block sizes");
        VRT_ASSERT((int)len == nbody[nw] && eq(body, bodies[nw], nbody[nw]), "body of the request in blocks");
        coap_msg_reset(resp);
    }
    calls++;
#ifdef XRES
    if (xres < 0) return xres;
#endif
    if (q->bres < 0) return q->bres;
    VRT_ASSERT(len >= (size_t)BLEN(q), "space for the body");
    if (!have && respond(resp, q->cls, q->det, 0) < 0) return -ENOMEM;
    memcpy(body, bbody, BLEN(q));
    return BLEN(q);
}

void harness(void)
{
    static param_t p;
    tls_sock_t *s = NULL;
    connection_t *con = NULL;
    int i = 0;
    char num[16];
    p.coap_client_key_file_name = "k";
    p.coap_client_cert_file_name = "c";
    p.coap_client_trust_file_name = "t";
    p.http_server_key_file_name = p.http_server_cert_file_name = p.http_server_trust_file_name = p.port = "-";
    (void)srv;
    for (i = 0; i < NR; i++)
    {
        struct rq *q = &R[i];
        fill(txt[i][0], q->host);
        if (q->port != NULL) fill(txt[i][1], q->port);
        fill(txt[i][2], q->path);
        npay[i] = fill(txt[i][3], q->pay);
        nbody[i] = fill(bodies[i], q->body);
        memset(bodies[i] + nbody[i], '=', q->pad);
        nbody[i] += q->pad;
        put(q->meth);
        put(" ");
        if (q->host[0] != '\0') { put("coap://"); put(txt[i][0]); if (q->port != NULL) { put(":"); put(txt[i][1]); } }
        put(q->host[0] == '\0' && q->port != NULL ? q->port : "/");
        put(txt[i][2]);
        put(" HTTP/1.1\r\n");
        put(q->hdr);
        if (nbody[i] > 0)
        {
            int v = nbody[i], k = 0, d = 10000;
            for (; d > 0; d /= 10) if (v >= d || d == 1) num[k++] = (char)('0' + v / d % 10);
            num[k] = '\0';
            put("Content-Length: "); put(num); put("\r\n");
        }
        put("\r\n");
        memcpy(in + n_in, bodies[i], nbody[i]);
        n_in += nbody[i];
    }
    put(TAIL);
    VRT_ASSERT(n_in <= MAXIN, "harness: input fits");
    memset(bbody, 'z', MAXOUT);
    bbody[0] = (char)nd_u8();
    for (i = 0; i < NR; i++) if (R[i].bres > 1 && R[i].bres != NOBODY) bbody[R[i].bres - 1] = (char)nd_u8();
    off = 0;
#ifdef SPLIT
    off = (int)nd_range(1, n_in - 1);
    for (i = 1; i < n_in; i++) if (off == i) { off = i; break; }
#endif
    rec = 0; reclen = 0; got = 0;
#ifdef SPLIT
    reclen = off;
#elif defined(RECLEN)
    reclen = n_in < RECLEN ? n_in : RECLEN;
#else
    reclen = n_in;
#endif
    endkind = 1;
#ifdef ENDS
    endkind = (int)nd_range(0, 3);
#endif
    xres = 0;
#ifdef XRES
    xres = -(int)nd_range(0, 200);
#endif
    s = malloc(sizeof(*s));
    memset(s, 0, sizeof(*s));
    s->sd = 5;
    s->timeout = 7;
#ifdef FAILAT
    if (FAILMEM) vmem_fail_at = vmem_allocs + FAILAT; else vheap_fail_at = vheap_allocs + FAILAT;
#endif
    con = connection_new(s, 1, 2, &p);
    if (con == NULL)
    {
#ifndef FAILAT
        VRT_ASSERT(0, "connection set up");
#endif
        VRT_ASSERT(vheap_live == 1, "nothing leaked");
#ifdef FAILNEW
        VRT_WITNESS_POINT("connection refused");
#endif
        free(s);
        return;
    }
    connection_thread_func(con);
#if !defined(FAILAT) && !defined(CFAIL)
    VRT_ASSERT(nw == NR, "every request is answered");
#endif
    VRT_ASSERT(closed == 1 && !active, "the connections are closed");
    VRT_ASSERT(vheap_live == 0 && vmem_small_live == 0 && vmem_medium_live == 0 && vmem_large_live == 0 && !vmem_bad_free, "nothing leaked");
#ifndef FAILNEW
    VRT_WITNESS_POINT("end of the connection");
#endif
}
#endif

#ifdef DBUF
/* data_buf: operations in symbolic order with symbolic amounts, against a plain array */
static char ref[64];
static int cnt, size;
void harness(void)
{
    data_buf_t b;
    static const char ops[] = OPS;
    int ret = 0, max = DMAX, i = 0, k = 0;
    VRT_BYTES(data, DBUF * 4);
    size = (int)nd_range(DSIZE, DSIZE2);
    ret = data_buf_create(&b, size, max);
    VRT_ASSERT((ret == 0) == (size <= max), "a buffer larger than its maximum is refused");
    if (ret != 0) { VRT_ASSERT(vheap_live == 0, "nothing leaked"); return; }
    for (i = 0; i < DBUF; i++)
    {
        int op = ops[i] - '0', n = op == 2 ? 0 : (int)nd_range(0, DBUF < 3 ? 4 : 2), w = 0;
        if (op == 0)
        {
            w = n <= size - cnt ? n : size - cnt;
            for (k = 0; k < w; k++) data_buf_get_next(&b)[k] = ref[cnt + k] = data[i * 4 + k];
            VRT_ASSERT((int)data_buf_add(&b, n) == w, "bytes added");
            cnt += w;
        }
        else if (op == 1)
        {
            w = n <= cnt ? n : cnt;
            VRT_ASSERT((int)data_buf_consume(&b, n) == w, "bytes consumed");
            for (k = 0; k + w < cnt; k++) ref[k] = ref[k + w];
            cnt -= w;
        }
        else
        {
#ifdef FAILAT
            if (vheap_fail_at == 0) vheap_fail_at = vheap_allocs + 1;
#endif
            ret = data_buf_expand(&b);
            if (2 * size > max) VRT_ASSERT(ret == -EINVAL, "no larger than the maximum");
            else if (vheap_failed && vheap_fail_at == vheap_allocs) VRT_ASSERT(ret == -ENOMEM, "out of memory is reported");
            else { VRT_ASSERT(ret == 0, "expanded"); size *= 2; }
        }
        VRT_ASSERT((int)data_buf_get_count(&b) == cnt && (int)data_buf_get_size(&b) == size, "count and size");
        for (k = 0; k < cnt; k++) VRT_ASSERT(data_buf_get_data(&b)[k] == ref[k], "contents");
        VRT_ASSERT((int)data_buf_get_space(&b) == size - cnt, "space");
    }
    data_buf_destroy(&b);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
    VRT_WITNESS_POINT("done");
}
#endif
