/* http_parse: http_msg_parse on a message given by a template; the bytes of the template are either pinned or symbolic.
 *   \1  any byte         \2  any byte but NUL     \3 token byte: printable, not a separator
 * The oracle is an independent index-based reference for the message grammar of the parser's documentation. */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vheap.h"
#include "http_msg.h"

static const char tmpl[] = TMPL;
#define CAP ((int)sizeof(tmpl) - 1)
static int N = CAP;             /* bytes received; fewer than the template has with -DPREFIX */
static int lenient;             /* outside the grammar the documentation fixes: only safety is required */
#ifndef NHDR
#define NHDR 2
#endif
static const char *B;

#define INCOMPLETE (-EAGAIN)
#define MALFORMED (-EBADMSG)

static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int crlf(int i) { return i + 1 < N && B[i] == '\r' && B[i + 1] == '\n'; }
static int find_crlf(int i)
{
    for (; i < N; i++) { if (B[i] == '\0') lenient = 1; if (crlf(i)) return i; }
    return -1;
}

struct field { int off, len; };
static struct { struct field start[3], name[NHDR + 1], value[NHDR + 1]; int nhdr; int body_off[4], body_len[4], nchunk; } E;

/* does the field with its white space trimmed and collapsed equal s? */
static int same_trimmed(struct field f, const char *s)
{
    int i = f.off, e = f.off + f.len, j = 0;
    while (i < e && sp(B[i])) i++;
    while (e > i && sp(B[e - 1])) e--;
    while (i < e)
    {
        if (sp(B[i])) { if (s[j] != ' ') return 0; while (sp(B[i])) i++; }
        else { if (s[j] != B[i]) return 0; i++; }
        j++;
    }
    return s[j] == '\0';
}
static int low(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static int is_word(struct field f, const char *w)      /* trimmed field equals w, ignoring case */
{
    int i = f.off, e = f.off + f.len, j = 0;
    while (i < e && sp(B[i])) i++;
    while (e > i && sp(B[e - 1])) e--;
    for (; i < e; i++, j++) if (w[j] == '\0' || low(B[i]) != w[j]) return 0;
    return w[j] == '\0';
}
/* header fields from i up to and including the blank line: the index behind it, or an error */
static int ref_headers(int i)
{
    for (int h = 0; h <= NHDR; h++)
    {
        int q = i, c = -1;
        if (crlf(i)) return i + 2;
        for (;;)
        {
            q = find_crlf(q);
            if (q < 0) return INCOMPLETE;
            if (q + 2 < N && (B[q + 2] == ' ' || B[q + 2] == '\t')) q += 3; else break;
        }
        for (int k = i; k < q; k++) if (c < 0 && B[k] == ':') c = k;
        if (c < 0) return MALFORMED;
        VRT_ASSUME(E.nhdr < NHDR);
        E.name[E.nhdr].off = i; E.name[E.nhdr].len = c - i;
        E.value[E.nhdr].off = c + 1; E.value[E.nhdr].len = q - c - 1;
        E.nhdr++;
        i = q + 2;
    }
    return MALFORMED;
}
static int hexd(int c) { return (c >= '0' && c <= '9') ? c - '0' : (low(c) >= 'a' && low(c) <= 'f') ? low(c) - 'a' + 10 : -1; }

static int ref(void)
{
    int eol = find_crlf(0), i = 0, k = 0, p = 0, clen = 0, chunked = 0;
    if (eol < 0) return INCOMPLETE;
    for (k = 0; k < 3; k++)
    {
        E.start[k].off = p;
        if (k < 2)
        {
            int s = -1;
            for (i = p; i < eol; i++) if (s < 0 && B[i] == ' ') s = i;
            if (s < 0 || s == p) return MALFORMED;
            E.start[k].len = s - p; p = s + 1;
        }
        else { if (p == eol) return MALFORMED; E.start[k].len = eol - p; }
    }
    p = ref_headers(eol + 2);
    if (p < 0) return p;
    for (k = 0; k < NHDR; k++)
        if (k < E.nhdr)
        {
            if (is_word(E.name[k], "transfer-encoding") && is_word(E.value[k], "chunked")) chunked = 1;
            if (is_word(E.name[k], "content-length"))
            {
                int a = E.value[k].off, e = a + E.value[k].len;
                long v = 0;
                while (a < e && sp(B[a])) a++;
                while (e > a && sp(B[e - 1])) e--;
                if (a == e) return MALFORMED;
                for (; a < e; a++) { if (B[a] < '0' || B[a] > '9') return MALFORMED; if (v < 100000) v = v * 10 + (B[a] - '0'); }
                clen = v;
            }
        }
    if (chunked)
    {
        for (k = 0; k < 4; k++)
        {
            int q = find_crlf(p), v = 0, d = 0;
            if (q < 0) return INCOMPLETE;
            for (i = p; i < q; i++)
            {
                if (hexd(B[i]) < 0) break;
                if (v < 10000) v = v * 16 + hexd(B[i]);
                d++;
            }
            /* behind the size there may only be white space and parameters */
            if (p == q) return MALFORMED;
            if (d == 0) { if (!sp(B[p]) && B[p] != ';' && B[p] != '+' && B[p] != '-') return MALFORMED; lenient = 1; }
            if (i < q && low(B[i]) == 'x') lenient = 1;
            while (i < q && sp(B[i])) i++;
            if (i < q && B[i] != ';') lenient = 1;
            if (lenient) return 0;
            p = q + 2;
            if (v == 0) { E.nchunk = k; return ref_headers(p); }
            VRT_ASSUME(k < 3);
            if (v + 2 > N - p) return INCOMPLETE;
            E.body_off[k] = p; E.body_len[k] = v;
            p += v;
            if (!crlf(p)) return MALFORMED;
            p += 2;
        }
    }
    if (clen > 0)
    {
        if (clen > N - p) return INCOMPLETE;
        E.nchunk = 1; E.body_off[0] = p; E.body_len[0] = clen;
        return p + clen;
    }
    return p;
}
static int same(struct field f, const char *s)
{
    for (int i = 0; i < f.len; i++) if (s[i] != B[f.off + i]) return 0;
    return s[f.len] == '\0';
}
void harness(void)
{
    VRT_BYTES(in, CAP);
    http_msg_t msg;
    ssize_t ret = 0;
    int i = 0, k = 0, t = 0, want = 0, total = 0;

    for (i = 0; i < CAP; i++)
    {
        if (tmpl[i] == 1) continue;
        else if (tmpl[i] == 2) VRT_ASSUME(in[i] != 0);
        else if (tmpl[i] == 3) VRT_ASSUME(in[i] > 32 && in[i] < 127 && in[i] != ':' && in[i] != ';');
        else in[i] = tmpl[i];
    }
    B = in;
#ifdef PREFIX
    N = (int)nd_range(0, CAP);
    for (i = 0; i < CAP; i++) if (i == N) { N = i; break; }
#endif
    want = ref();
    http_msg_create(&msg);
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + 1 + FAILAT;
#endif
    {
        /* a buffer of exactly the bytes received */
        char *rx = malloc(N);
        for (i = 0; i < N; i++) rx[i] = in[i];
        ret = http_msg_parse(&msg, rx, N);
        free(rx);
    }
#ifdef FAILAT
    if (vheap_failed) { VRT_ASSERT(ret == -ENOMEM, "out of memory is reported"); VRT_WITNESS_POINT("failed allocation"); }
    else
#endif
    {
    if (!lenient) VRT_ASSERT(ret == want, "result of the parse");
    if (!lenient && want > 0 && ret == want)
    {
        http_msg_header_t *h = msg.header.first;
        for (k = 0; k < 3; k++) VRT_ASSERT(msg.start[k] != NULL && same(E.start[k], msg.start[k]), "start line field");
        for (k = 0; k < NHDR; k++)
            if (k < E.nhdr)
            {
                VRT_ASSERT(h != NULL, "every header field is kept");
                if (h == NULL) break;
                VRT_ASSERT(same_trimmed(E.name[k], h->name), "header name");
                VRT_ASSERT(same_trimmed(E.value[k], h->value), "header value");
                h = h->next;
            }
        VRT_ASSERT(h == NULL, "no other header fields");
        for (k = 0; k < 4; k++)
            if (k < E.nchunk)
            {
                VRT_ASSERT(msg.body != NULL, "body present");
                if (msg.body == NULL) break;
                for (i = 0; i < E.body_len[k]; i++) VRT_ASSERT(msg.body[total + i] == B[E.body_off[k] + i], "body byte");
                total += E.body_len[k];
            }
        VRT_ASSERT(msg.body_len == (size_t)total, "body length");
        if (msg.body != NULL) VRT_ASSERT(msg.body[total] == '\0', "body terminated");
#ifndef NO_W
        VRT_WITNESS_POINT("parsed");
#endif
    }
    }
#ifdef W_ANY
    VRT_WITNESS_POINT("end");
#endif
    http_msg_destroy(&msg);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
