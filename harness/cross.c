/* cross: the mapping between HTTP and CoAP messages, cross_req_http_to_coap, cross_resp_coap_to_http, cross_uri_coap_to_http.
 *   REQ   symbolic method, URI, header fields and body -> the CoAP request
 *   RESP  symbolic code, options and payload -> the HTTP response
 *   C2H   symbolic Uri-* options -> the URI, and back
 *   LONG  options longer than the buffers of the conversion */
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "vrt.h"
#include "vheap.h"
#include "vmem.h"
#include "cross.h"
#include "uri_ref.h"

static int eq(const char *a, const char *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }
/* \1 any byte, \2 any byte but NUL, \3 any byte but NUL and '%' */
static void pin(char *in, const char *tmpl, int n)
{
    for (int i = 0; i < n; i++)
    {
        if (tmpl[i] == 1) continue;
        else if (tmpl[i] == 2) VRT_ASSUME(in[i] != 0);
        else if (tmpl[i] == 3) VRT_ASSUME((in[i] != 0) & (in[i] != '%'));
        else in[i] = tmpl[i];
    }
    in[n] = '\0';
}
/* expected options, by number; equal numbers in the order they are added */
#define MAXOP 10
static struct { unsigned num, len; const char *val; } O[MAXOP];
static int no;
static void op(unsigned num, const char *val, int len) { O[no].num = num; O[no].len = len; O[no].val = val; no++; }
static void check_ops(coap_msg_t *m)
{
    static const unsigned nums[] = { COAP_MSG_URI_HOST, COAP_MSG_ETAG, COAP_MSG_URI_PORT, COAP_MSG_URI_PATH, COAP_MSG_MAX_AGE, COAP_MSG_URI_QUERY, COAP_MSG_ACCEPT };
    coap_msg_op_t *p = coap_msg_get_first_op(m);
    for (int k = 0; k < 7; k++)
        for (int i = 0; i < no; i++)
            if (O[i].num == nums[k])
            {
                VRT_ASSERT(p != NULL, "every option is there");
                if (p == NULL) return;
                VRT_ASSERT(coap_msg_op_get_num(p) == O[i].num && coap_msg_op_get_len(p) == O[i].len && eq(coap_msg_op_get_val(p), O[i].val, O[i].len), "option");
                p = coap_msg_op_get_next(p);
            }
    VRT_ASSERT(p == NULL, "no other options");
}
/* options of the parts of a text between separators, empty parts left out */
static void parts(unsigned num, int k, int from, char sep)
{
    int b = from;
    for (int i = from; i <= XL[k]; i++)
        if (i == XL[k] || X[k][i] == sep) { if (i > b) op(num, X[k] + b, i - b); b = i + 1; }
}

#ifdef REQ
static const char *const tm[] = { REQ };        /* method, URI, (name, value)* */
#define NT ((int)(sizeof(tm) / sizeof(tm[0])))
static char txt[NT][40];
static int low(int c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
static int word(const char *s, const char *w) { size_t n = strlen(w); int ok = 1; for (size_t i = 0; i < n; i++) { if (s[i] == '\0') return 0; ok &= (low(s[i]) == w[i]); } return ok && s[n] == '\0'; }
static char agetxt[12];
static char big[BODYCAP];
void harness(void)
{
    static const char body_t[] = BODY;
    int want = 0, method = 0;                  /* want: the HTTP code, 0 if the request is converted */
    size_t blen = sizeof(body_t) - 1 + BIGBODY, end = 77, i = 0;
    unsigned code = 999;
    http_msg_t h;
    coap_msg_t m;
    int ret = 0;
    VRT_BYTES(body, sizeof(body_t));
    char *hb = NULL;

    pin(body, body_t, sizeof(body_t) - 1);
    for (int k = 0; k < NT; k++)
    {
        VRT_BYTES(in, 40);
        pin(in, tm[k], strlen(tm[k]));
        for (i = 0; i < 40; i++) txt[k][i] = in[i];
    }
    http_msg_create(&h);
    VRT_ASSERT(http_msg_set_start(&h, txt[0], txt[1], "HTTP/1.1") == 0, "set start");
    for (int k = 2; k + 1 < NT; k += 2) VRT_ASSERT(http_msg_set_header(&h, txt[k], txt[k + 1]) == 0, "set header");
    if (blen > 0)
    {
        hb = malloc(blen);
        for (i = 0; i < blen; i++) hb[i] = i < sizeof(body_t) - 1 ? body[i] : (char)(i * 7);
        VRT_ASSERT(http_msg_set_body(&h, hb, blen) == 0, "set body");
        free(hb);
    }
    coap_msg_create(&m);
    /* what an earlier message left is replaced */
    VRT_ASSERT(coap_msg_add_op(&m, 12, 1, "z") == 0 && coap_msg_set_payload(&m, "old", 3) == 0 && coap_msg_set_token(&m, "t", 1) == 0, "old message");

    /* method */
    method = eq(txt[0], "GET", 4) ? 1 : eq(txt[0], "POST", 5) ? 2 : eq(txt[0], "PUT", 4) ? 3 : eq(txt[0], "DELETE", 7) ? 4 : 0;
    if (method == 0) want = 501;
    /* URI */
    if (want == 0)
    {
        int n = strlen(txt[1]);
        ref(txt[1], n);
        if (lenient) goto run;
        if (bad || have[FRAG] || !have[SCHEME]) want = 400;
        else if (!word(X[SCHEME], "coap") && !word(X[SCHEME], "coaps")) want = 400;
        else if (have[PATH] && X[PATH][0] != '/') want = 400;
        else
        {
            /* an encoded delimiter is not distinguished from a delimiter: its meaning is not fixed here */
            for (int j = 0; j + 2 < n; j++) if (txt[1][j] == '%' && txt[1][j + 1] == '2' && (low(txt[1][j + 2]) == 'f' || txt[1][j + 2] == '6')) lenient = 1;
            if (lenient) goto run;
            if (have[HOST]) op(COAP_MSG_URI_HOST, X[HOST], XL[HOST]);
            if (have[PORT]) op(COAP_MSG_URI_PORT, X[PORT], XL[PORT]);
            if (have[PORT] && XL[PORT] == 0) { lenient = 1; goto run; }
            if (have[PATH]) parts(COAP_MSG_URI_PATH, PATH, 1, '/');
            if (have[QUERY]) parts(COAP_MSG_URI_QUERY, QUERY, 0, '&');
        }
    }
    /* header fields */
    for (int k = 2; k + 1 < NT && want == 0; k += 2)
    {
        if (word(txt[k], "etag")) op(COAP_MSG_ETAG, txt[k + 1], strlen(txt[k + 1]));
        else if (word(txt[k], "accept"))
        {
            const char *v = txt[k + 1];
            int ok = 1;
            for (int j = 0; j < 10; j++) { if (v[j] == '\0') { ok = 0; break; } ok &= (low(v[j]) == "text/plain"[j]); }
            if (!ok) want = 406;
            else
            {
                if (v[10] != '\0' && v[10] != ';' && v[10] != ',' && v[10] != ' ') { lenient = 1; goto run; }
                op(COAP_MSG_ACCEPT, "0", 1);
            }
        }
        else if (word(txt[k], "cache-control"))
        {
            const char *v = txt[k + 1];
            for (int j = 0; v[j] != '\0'; j++)
            {
                unsigned long age = 0;
                int d = 0, z = 0, q = j;
                if (!eq(v + j, "max-age=", 8)) continue;
                q = j + 8;
                if (v[q] < '0' || v[q] > '9')
                {
                    if (v[q] == '-' || v[q] == '+' || v[q] == ' ' || (v[q] >= 9 && v[q] <= 13)) { lenient = 1; goto run; }
                    break;                                      /* no number: ignored */
                }
                for (; v[q] >= '0' && v[q] <= '9'; q++) { age = age * 10 + (v[q] - '0'); VRT_ASSUME(age < 4294967296ul); }
                /* the decimal text without leading zeros */
                for (z = j + 8; v[z] == '0' && z + 1 < q; z++) ;
                for (d = 0; z < q; z++) agetxt[d++] = v[z];
                op(COAP_MSG_MAX_AGE, agetxt, d);
                break;
            }
        }
    }
    if (want == 0 && blen > COAP_MSG_MAX_PAYLOAD_LEN && blen > BODYCAP) want = 502;
run:
#ifdef FAILAT
    if (FAILKIND) vheap_fail_at = vheap_allocs + FAILAT; else vmem_fail_at = vmem_allocs + FAILAT;
#endif
    ret = cross_req_http_to_coap(&m, big, sizeof(big), &end, &h, &code);
#ifdef FAILAT
    if (vheap_failed || vmem_any_failed) VRT_ASSERT(ret == -ENOMEM && code != 0, "out of memory is reported");
    VRT_WITNESS_POINT("failed allocation");
#else
    if (!lenient)
    {
        VRT_ASSERT((ret < 0) == (want != 0), "the request is converted or refused");
        VRT_ASSERT(code == (unsigned)want, "status code");
        if (want == 0)
        {
            VRT_ASSERT(coap_msg_get_type(&m) == COAP_MSG_CON && coap_msg_get_token_len(&m) == 0, "type of the request");
            VRT_ASSERT(coap_msg_get_code_class(&m) == COAP_MSG_REQ && coap_msg_get_code_detail(&m) == (unsigned)method, "method of the request");
            check_ops(&m);
            if (blen > COAP_MSG_MAX_PAYLOAD_LEN)
            {
                VRT_ASSERT(end == blen && coap_msg_get_payload_len(&m) == 0, "a long body is handed over separately");
                for (i = 0; i < blen; i++) VRT_ASSERT(big[i] == (i < sizeof(body_t) - 1 ? body[i] : (char)(i * 7)), "long body");
            }
            else
            {
                VRT_ASSERT(coap_msg_get_payload_len(&m) == blen, "length of the payload");
                if (blen > 0) VRT_ASSERT(eq(coap_msg_get_payload(&m), body, sizeof(body_t) - 1), "payload");
            }
            VRT_WITNESS_POINT("converted");
        }
        else VRT_WITNESS_POINT("refused");
    }
    VRT_ASSERT((ret < 0) == (code != 0), "a refused request has a status code");
#endif
    coap_msg_destroy(&m);
    http_msg_destroy(&h);
    VRT_ASSERT(vheap_live == 0 && vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "nothing leaked");
}
#endif

#ifdef RESP
static const struct { unsigned num; const char *t; } ops[] = { RESP { 0, NULL } };
static char ov[4][12];
static const char *reason(int s)
{
    switch (s)
    {
        case 200: return "OK"; case 304: return "Not Modified"; case 400: return "Bad Request"; case 401: return "Unauthorized"; case 403: return "Forbidden";
        case 404: return "Not Found"; case 405: return "Method Not Allowed"; case 406: return "Not Acceptable"; case 412: return "Precondition Failed";
        case 413: return "Request Entity Too Large"; case 415: return "Unsupported Media Type"; case 500: return "Internal Server Error";
        case 501: return "Not Implemented"; case 502: return "Bad Gateway"; case 503: return "Service Unavailable"; case 504: return "Gateway Timeout";
    }
    return "";
}
static int status(int c, int d)
{
    if (c == 2) { if (d == 3) return 304; return d >= 1 && d <= 5 ? 200 : 0; }
    if (c == 4) { if (d == 2) return 400; return (d >= 0 && d <= 6) || d == 12 || d == 13 || d == 15 ? 400 + d : 0; }
    if (c == 5) { if (d == 5) return 501; return d <= 4 ? 500 + d : 0; }
    return 0;
}
void harness(void)
{
    static const char body_t[] = BODY, pay_t[] = PAYLOAD;
    VRT_BYTES(body, sizeof(body_t));
    VRT_BYTES(pay, sizeof(pay_t));
    http_msg_t h;
    coap_msg_t m;
    http_msg_header_t *f = NULL;
    int ret = 0, s = 0, cls = 2, det = 5;
    unsigned code = 999;
    char num[4] = { 0 };
    size_t bl = sizeof(body_t) - 1, pl = sizeof(pay_t) - 1, n = 0;
    const char *b = NULL;

    pin(body, body_t, bl);
    pin(pay, pay_t, pl);
    coap_msg_create(&m);
    http_msg_create(&h);
    VRT_ASSERT(http_msg_set_start(&h, "x", "y", "z") == 0 && http_msg_set_header(&h, "o", "p") == 0, "old message");
#ifdef ANYCODE
    cls = (int)nd_range(0, 7); det = (int)nd_range(0, 31);
#endif
    VRT_ASSERT(coap_msg_set_code(&m, cls, det) == 0, "code");
    for (int k = 0; ops[k].t != NULL; k++)
    {
        VRT_BYTES(in, 12);
        pin(in, ops[k].t, strlen(ops[k].t));
        for (int i = 0; i < 12; i++) ov[k][i] = in[i];
        VRT_ASSERT(coap_msg_add_op(&m, ops[k].num, strlen(ops[k].t), ov[k]) == 0, "option");
    }
    if (pl > 0) VRT_ASSERT(coap_msg_set_payload(&m, pay, pl) == 0, "payload");
    s = status(cls, det);
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + FAILAT;
#endif
    ret = cross_resp_coap_to_http(&h, &m, body, bl, &code);
#ifdef FAILAT
    if (vheap_failed) VRT_ASSERT(ret == -ENOMEM && code == 502, "out of memory is reported");
    VRT_WITNESS_POINT("failed allocation");
#else
    if (s == 0)
    {
        VRT_ASSERT(ret < 0 && code == 502, "a code without meaning is a bad gateway");
#ifdef ANYCODE
        VRT_WITNESS_POINT("no such status");
#endif
    }
    else
    {
        VRT_ASSERT(ret == 0 && code == 0, "the response is converted");
        num[0] = '0' + s / 100; num[1] = '0' + s / 10 % 10; num[2] = '0' + s % 10;
        VRT_ASSERT(eq(http_msg_get_start(&h, 0), "HTTP/1.1", 9) && eq(http_msg_get_start(&h, 1), num, 4), "status line");
        VRT_ASSERT(eq(http_msg_get_start(&h, 2), reason(s), strlen(reason(s)) + 1), "reason");
        f = http_msg_get_first_header(&h);
        for (int k = 0; ops[k].t != NULL; k++)
        {
            size_t l = strlen(ops[k].t);
            const char *name = NULL;
            char val[24] = { 0 };
            int vl = 0, ok = 1;
            if (ops[k].num == COAP_MSG_ETAG)
            {
                name = "Etag";
                for (size_t i = 0; i < l; i++) { ok &= (ov[k][i] >= 32) & (ov[k][i] < 127); val[vl++] = ov[k][i]; }
                /* control characters cannot stand in a header field */
                if (!ok) continue;
            }
            else if (ops[k].num == COAP_MSG_MAX_AGE)
            {
                size_t q = 0, z = 0;
                while (q < l && ov[k][q] >= '0' && ov[k][q] <= '9') q++;
                if (q == 0) { VRT_ASSUME(ov[k][0] != '-' && ov[k][0] != '+' && ov[k][0] != ' ' && (ov[k][0] < 9 || ov[k][0] > 13)); continue; }
                while (z + 1 < q && ov[k][z] == '0') z++;
                name = "Cache-Control";
                for (size_t i = 0; i < 8; i++) val[vl++] = "max-age="[i];
                while (z < q) val[vl++] = ov[k][z++];
            }
            else if (ops[k].num == COAP_MSG_ACCEPT)
            {
                if (l != 1 || ov[k][0] != '0') continue;
                name = "Accept";
                for (size_t i = 0; i < 10; i++) val[vl++] = "text/plain"[i];
            }
            else continue;
            VRT_ASSERT(f != NULL, "every option that has one gets its header field");
            if (f == NULL) break;
            VRT_ASSERT(eq(f->name, name, strlen(name) + 1) && eq(f->value, val, vl + 1), "header field");
            f = f->next;
        }
        b = bl > 0 ? body : pay;
        n = bl > 0 ? bl : pl;
        if (n > 0)
        {
            VRT_ASSERT(f != NULL && eq(f->name, "Content-Length", 15), "content length");
            if (f != NULL)
            {
                num[0] = n > 9 ? '0' + n / 10 : '0' + n; num[1] = n > 9 ? '0' + n % 10 : '\0'; num[2] = '\0';
                VRT_ASSERT(eq(f->value, num, strlen(num) + 1), "value of the content length");
                f = f->next;
            }
            VRT_ASSERT(http_msg_get_body_len(&h) == n && eq(http_msg_get_body(&h), b, n), "body");
        }
        else VRT_ASSERT(http_msg_get_body_len(&h) == 0, "no body");
        VRT_ASSERT(f == NULL, "no other header fields");
        VRT_WITNESS_POINT("converted");
    }
#endif
    coap_msg_destroy(&m);
    http_msg_destroy(&h);
    VRT_ASSERT(vheap_live == 0 && vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "nothing leaked");
}
#endif

#ifdef C2H
static const struct { unsigned num; const char *t; } ops[] = { C2H { 0, NULL } };
static char ov[6][12];
static void join(int k, const char *v, int l)
{
    have[k] = 1;
    for (int i = 0; i < l; i++) { if (v[i] == '\0') bad = 1; X[k][XL[k]++] = v[i]; }
}
void harness(void)
{
    coap_msg_t m;
    char *buf = NULL;
    size_t len = 0;
    int ret = 0, nq = 0;
    coap_msg_create(&m);
    have[SCHEME] = 1; XL[SCHEME] = 5; for (int i = 0; i < 5; i++) X[SCHEME][i] = "coaps"[i];
    for (int k = 0; ops[k].t != NULL; k++)
    {
        int l = strlen(ops[k].t);
        VRT_BYTES(in, 12);
        pin(in, ops[k].t, l);
        for (int i = 0; i < 12; i++) ov[k][i] = in[i];
        VRT_ASSERT(coap_msg_add_op(&m, ops[k].num, l, ov[k]) == 0, "option");
        if (ops[k].num == COAP_MSG_URI_HOST) join(HOST, ov[k], l);
        else if (ops[k].num == COAP_MSG_URI_PORT) join(PORT, ov[k], l);
        else if (ops[k].num == COAP_MSG_URI_PATH) { join(PATH, "/", 1); join(PATH, ov[k], l); }
        else if (ops[k].num == COAP_MSG_URI_QUERY) { if (nq++) join(QUERY, "&", 1); join(QUERY, ov[k], l); }
        /* delimiters in an option are not distinguished from delimiters between options */
        for (int i = 0; i < l; i++) VRT_ASSUME((ov[k][i] != '/') & (ov[k][i] != '&'));
        op(ops[k].num, ov[k], l);
    }
    if (!have[PATH]) join(PATH, "/", 1);
    text();
#ifdef BUFLEN
    len = nd_range(0, BUFLEN);
    for (size_t i = 0; i < BUFLEN; i++) if (i == len) { len = i; break; }
#else
    len = TL + 1;
#endif
    buf = malloc(len);
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + FAILAT;
#endif
    ret = cross_uri_coap_to_http(buf, len, &m);
#ifdef FAILAT
    if (vheap_failed) VRT_ASSERT(ret == -ENOMEM, "out of memory is reported");
    VRT_WITNESS_POINT("failed allocation");
#else
    if (bad) VRT_ASSERT(ret < 0, "a null byte is refused");
    else if ((size_t)TL < len)
    {
        VRT_ASSERT(ret == 0, "the URI fits");
        VRT_ASSERT(eq(buf, T, TL) && buf[TL] == '\0', "URI of the options");
        VRT_WITNESS_POINT("fits");
#ifndef BUFLEN
        coap_msg_reset(&m);
        VRT_ASSERT(cross_uri_http_to_coap(&m, buf) == 0, "the URI is accepted");
        check_ops(&m);
#endif
    }
    else VRT_ASSERT(ret == -ENOSPC, "a URI that does not fit is refused");
#endif
    free(buf);
    coap_msg_destroy(&m);
    VRT_ASSERT(vheap_live == 0 && vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "nothing leaked");
}
#endif

#ifdef LONG
/* options around the size of the temporary buffers; the last byte of each is symbolic */
static const struct { unsigned num, len; } ops[] = { LONG { 0, 0 } };
static char ov[4][520];
static char want[1200];
static size_t wl;
static void wput(const char *s, size_t n) { for (size_t i = 0; i < n; i++) want[wl++] = s[i]; }
void harness(void)
{
    VRT_BYTES(in, 4);
    coap_msg_t m;
    http_msg_t h;
    char *buf = malloc(1200);
    int ret = 0, nq = 0, k = 0;
    unsigned code = 999;
    size_t biggest = 0;
    coap_msg_create(&m);
    http_msg_create(&h);
    for (k = 0; k < 4; k++) VRT_ASSUME((in[k] >= '0') & (in[k] <= '9'));
    VRT_ASSERT(coap_msg_set_code(&m, 2, 5) == 0, "code");
    for (k = 0; ops[k].num != 0; k++)
    {
        for (unsigned i = 0; i < ops[k].len; i++) ov[k][i] = 'a';
        ov[k][ops[k].len - 1] = in[k];
        VRT_ASSERT(coap_msg_add_op(&m, ops[k].num, ops[k].len, ov[k]) == 0, "option");
    }
#ifdef TOURI
    size_t part[4] = { 0 };
    wput("coaps:", 6);
    for (k = 0; ops[k].num != 0; k++)
    {
        if (ops[k].num == COAP_MSG_URI_HOST) { wput("//", 2); wput(ov[k], ops[k].len); part[0] += ops[k].len; }
        if (ops[k].num == COAP_MSG_URI_PATH) { wput("/", 1); wput(ov[k], ops[k].len); part[1] += ops[k].len + 1; }
        if (ops[k].num == COAP_MSG_URI_QUERY) { wput(nq++ ? "&" : "?", 1); wput(ov[k], ops[k].len); part[2] += ops[k].len + 1; }
    }
    if (part[1] == 0) wput("/", 1);
    for (k = 0; k < 3; k++) if (part[k] > biggest) biggest = part[k];
    ret = cross_uri_coap_to_http(buf, 1200, &m);
    VRT_ASSERT(ret == 0 || (ret == -ENOSPC && biggest > 200), "the URI is made or refused as too long");
    if (ret == 0) VRT_ASSERT(eq(buf, want, wl) && buf[wl] == '\0', "URI of the options");
#else
    (void)nq;
    for (k = 0; ops[k].num != 0; k++) if (ops[k].len > biggest) biggest = ops[k].len;
    ret = cross_resp_coap_to_http(&h, &m, NULL, 0, &code);
    VRT_ASSERT((ret == 0 && code == 0) || (ret < 0 && code == 502 && biggest > 200), "the response is converted or refused");
    if (ret == 0)
    {
        http_msg_header_t *f = http_msg_get_first_header(&h);
        for (k = 0; ops[k].num != 0; k++)
            if (ops[k].num == COAP_MSG_ETAG)
            {
                VRT_ASSERT(f != NULL, "header field of the entity tag");
                if (f == NULL) break;
                VRT_ASSERT(eq(f->name, "Etag", 5) && eq(f->value, ov[k], ops[k].len) && f->value[ops[k].len] == '\0', "entity tag");
                f = f->next;
            }
        VRT_ASSERT(f == NULL, "no other header fields");
    }
#endif
    VRT_WITNESS_POINT("long options");
    free(buf);
    coap_msg_destroy(&m);
    http_msg_destroy(&h);
    VRT_ASSERT(vheap_live == 0 && vmem_small_live == 0 && vmem_medium_live == 0 && !vmem_bad_free, "nothing leaked");
}
#endif
