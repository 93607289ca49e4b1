/* http_gen: http_msg_generate, http_msg_generate_chunk/last_chunk/trailer/blank_line for symbolic texts and every length of the buffer,
 * and http_msg_parse of what was generated. */
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "vrt.h"
#include "vheap.h"
#include "http_msg.h"
#include "util.h"

#define MAXT 96
#ifdef CHUNK
#define COUNT0 1
#else
#define COUNT0 0        /* the length is not counted when there is no buffer */
#endif
static char T[MAXT];
static size_t TL;
static void put(const char *s, size_t n) { for (size_t i = 0; i < n; i++) T[TL++] = s[i]; }
static void puts0(const char *s) { put(s, strlen(s)); }
/* \3: a token byte, \1: any byte, \2: any byte but NUL */
static void pin(char *in, const char *tmpl, int n)
{
    for (int i = 0; i < n; i++)
    {
        if (tmpl[i] == 1) continue;
        else if (tmpl[i] == 2) VRT_ASSUME(in[i] != 0);
        else if (tmpl[i] == 3) VRT_ASSUME((in[i] > 32) & (in[i] < 127) & (in[i] != ':'));
        else in[i] = tmpl[i];
    }
    in[n] = '\0';
}
#ifdef BUFLEN
static size_t pick(void)
{
    size_t len = nd_range(0, BUFLEN);
    for (size_t i = 0; i < BUFLEN; i++) if (i == len) return i;
    return BUFLEN;
}
#endif
static void judge(const char *buf, size_t len, size_t num)
{
    size_t i = 0;
    if (len > 0 || COUNT0) VRT_ASSERT(num == TL, "length of the text");
    if (TL < len)
    {
        for (i = 0; i < TL; i++) VRT_ASSERT(buf[i] == T[i], "generated text");
        VRT_ASSERT(buf[TL] == '\0', "generated text is terminated");
        VRT_WITNESS_POINT("fits");
    }
    else if (len > 0)
    {
        /* the part that fits, up to the terminator */
        int end = 0, ok = 1;
        for (i = 0; i < len; i++)
        {
            end |= (buf[i] == '\0') & (T[i] != '\0');
            ok &= end | (i + 1 >= len) | (buf[i] == T[i]);
        }
        VRT_ASSERT(ok, "what fits is a prefix of the text");
        VRT_ASSERT(buf[len - 1] == '\0', "text that does not fit is terminated");
        VRT_WITNESS_POINT("does not fit");
    }
}
static int eq(const char *a, const char *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }

#ifdef MSG
static const char *const tm[] = { MSG };         /* start1, start2, start3, (name, value)* */
#define NT ((int)(sizeof(tm) / sizeof(tm[0])))
static char txt[NT][16];
void harness(void)
{
    static const char body_t[] = BODY;
    http_msg_t msg, m2;
    size_t len = 0, num = 0;
    char *buf = NULL;
    VRT_BYTES(body, sizeof(body_t));
    pin(body, body_t, sizeof(body_t) - 1);
    for (int k = 0; k < NT; k++)
    {
        VRT_BYTES(in, 16);
        pin(in, tm[k], strlen(tm[k]));
        for (int i = 0; i < 16; i++) txt[k][i] = in[i];
    }
    http_msg_create(&msg);
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + FAILAT;
    {
        int ret = http_msg_set_start(&msg, txt[0], txt[1], txt[2]);
        for (int k = 3; k + 1 < NT && ret == 0; k += 2) ret = http_msg_set_header(&msg, txt[k], txt[k + 1]);
        if (ret == 0) ret = http_msg_set_body(&msg, body, sizeof(body_t) - 1);
        VRT_ASSERT(ret == (vheap_failed ? -ENOMEM : 0), "out of memory is reported");
        VRT_WITNESS_POINT("failed allocation");
        http_msg_destroy(&msg);
        VRT_ASSERT(vheap_live == 0, "nothing leaked");
        return;
    }
#endif
    VRT_ASSERT(http_msg_set_start(&msg, txt[0], txt[1], txt[2]) == 0, "set start");
    for (int k = 3; k + 1 < NT; k += 2) VRT_ASSERT(http_msg_set_header(&msg, txt[k], txt[k + 1]) == 0, "set header");
    if (sizeof(body_t) > 1) VRT_ASSERT(http_msg_set_body(&msg, body, sizeof(body_t) - 1) == 0, "set body");
    puts0(txt[0]); puts0(" "); puts0(txt[1]); puts0(" "); puts0(txt[2]); puts0("\r\n");
    for (int k = 3; k + 1 < NT; k += 2) { puts0(txt[k]); puts0(": "); puts0(txt[k + 1]); puts0("\r\n"); }
    puts0("\r\n");
    put(body, sizeof(body_t) - 1);
#ifdef BUFLEN
    len = pick();
    buf = malloc(len);
    num = http_msg_generate(&msg, buf, len);
    judge(buf, len, num);
    free(buf);
    (void)m2;
#else
    len = TL + 1;
    buf = malloc(len);
    num = http_msg_generate(&msg, buf, len);
    VRT_ASSERT(num == TL && eq(buf, T, TL), "generated text");
    /* the receiver sees the same message */
    http_msg_create(&m2);
    VRT_ASSERT(http_msg_parse(&m2, buf, num) == (ssize_t)num, "the generated message is accepted and consumed entirely");
    {
        http_msg_header_t *h = m2.header.first;
        for (int k = 0; k < 3; k++) VRT_ASSERT(m2.start[k] != NULL && eq(m2.start[k], txt[k], strlen(txt[k]) + 1), "start line");
        for (int k = 3; k + 1 < NT; k += 2)
        {
            VRT_ASSERT(h != NULL && eq(h->name, txt[k], strlen(txt[k]) + 1) && eq(h->value, txt[k + 1], strlen(txt[k + 1]) + 1), "header field");
            if (h == NULL) break;
            h = h->next;
        }
        VRT_ASSERT(h == NULL, "no other header fields");
        if (sizeof(body_t) > 1) VRT_ASSERT(m2.body != NULL && m2.body_len == sizeof(body_t) - 1 && eq(m2.body, body, sizeof(body_t) - 1), "body");
        else VRT_ASSERT(m2.body == NULL, "no body");
        VRT_WITNESS_POINT("round trip");
    }
    http_msg_destroy(&m2);
    free(buf);
#endif
    http_msg_destroy(&msg);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
#endif

#ifdef CHUNK
void harness(void)
{
    static const char hex[] = "0123456789abcdef";
    VRT_BYTES(in, CHUNK + 1);
    VRT_BYTES(tr, 8);
    size_t len = 0, num = 0;
    char *buf = NULL;
    pin(tr, "\3\3\0\3\3", 5); tr[2] = '\0';
#ifdef BUFLEN
    len = pick();
    buf = malloc(len);
#if KIND == 0
    if (CHUNK > 15) put(hex + CHUNK / 16, 1);
    put(hex + CHUNK % 16, 1); puts0("\r\n"); put(in, CHUNK); puts0("\r\n");
    num = http_msg_generate_chunk(buf, len, in, CHUNK);
#elif KIND == 1
    puts0("0\r\n");
    num = http_msg_generate_last_chunk(buf, len);
#elif KIND == 2
    puts0(tr); puts0(": "); puts0(tr + 3); puts0("\r\n");
    num = http_msg_generate_trailer(buf, len, tr, tr + 3);
#else
    puts0("\r\n");
    num = http_msg_generate_blank_line(buf, len);
#endif
    judge(buf, len, num);
#else
    /* a message sent in two chunks with a trailer is received as one body */
    {
        static const char head[] = "G / H\r\nTransfer-Encoding: chunked\r\n\r\n";
        http_msg_t m;
        size_t pos = sizeof(head) - 1, cap = pos + CHUNK + 40;
        buf = malloc(cap);
        memcpy(buf, head, pos);
        pos += http_msg_generate_chunk(buf + pos, cap - pos, in, CHUNK - SPLIT);
        pos += http_msg_generate_chunk(buf + pos, cap - pos, in + CHUNK - SPLIT, SPLIT);
        pos += http_msg_generate_last_chunk(buf + pos, cap - pos);
        pos += http_msg_generate_trailer(buf + pos, cap - pos, tr, tr + 3);
        pos += http_msg_generate_blank_line(buf + pos, cap - pos);
        http_msg_create(&m);
        num = http_msg_parse(&m, buf, pos);
        VRT_ASSERT(num == pos, "the chunked message is accepted and consumed entirely");
        VRT_ASSERT(m.body != NULL && m.body_len == CHUNK && eq(m.body, in, CHUNK), "body of the chunks");
        VRT_ASSERT(m.header.first != NULL && m.header.first->next != NULL && eq(m.header.first->next->name, tr, 3) && eq(m.header.first->next->value, tr + 3, 3), "trailer");
        VRT_WITNESS_POINT("round trip");
        http_msg_destroy(&m);
    }
#endif
    free(buf);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
#endif

#ifdef UTIL
void harness(void)
{
    VRT_BYTES(s, UTIL + 1);
    size_t len = pick(), st = nd_range(0, START), i = 0, n = 0, num = 0;
    char *buf = malloc(len);
    for (i = 0; i < START; i++) if (i == st) { st = i; break; }
    s[UTIL] = '\0';
    for (i = 0; i < len; i++) buf[i] = i < st ? 'x' : '\0';
    n = strlen(s);
#if KIND == 0
    num = util_strncpy(buf, s, len);
    st = 0;
#else
    num = util_strncat(buf, s, st, len);
#endif
    if (len == 0) VRT_ASSERT(num == 0, "nothing fits");
    else
    {
        VRT_ASSERT(num == st + n, "length of the text");
        for (i = 0; i < st && i + 1 < len && KIND; i++) VRT_ASSERT(buf[i] == 'x', "what was there is kept");
        for (i = 0; i < n && st + i + 1 < len; i++) VRT_ASSERT(buf[st + i] == s[i], "copied text");
        VRT_ASSERT(buf[st + n < len ? st + n : len - 1] == '\0', "terminated");
        VRT_WITNESS_POINT("copied");
    }
    free(buf);
}
#endif
