/* configuration files: config_parse / config_get / config_set / config_strerr, param_create.
 *   TMPL   text with symbolic bytes -> result, position of the error, values; reference: the lexer and parser below
 *   SETS   symbolic section/entry/value strings set one after the other
 *   PARAM  the same text behind a file that may be unreadable, read by param_create */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include "vrt.h"
#include "vheap.h"
#include "config.h"
#ifdef PARAM
#include "param.h"
#endif

static int eq(const char *a, const char *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }
static int same(const char *a, const char *b) { size_t n = strlen(b); return strlen(a) == n && eq(a, b, n); }
static void pin(char *in, const char *tmpl, int n)
{
    for (int i = 0; i < n; i++)
    {
        if (tmpl[i] == 1) continue;
        else if (tmpl[i] == 2) VRT_ASSUME(in[i] != 0);
        else if (tmpl[i] == 3) VRT_ASSUME((in[i] >= 'a') & (in[i] <= 'z'));
        else in[i] = tmpl[i];
    }
    in[n] = '\0';
}

#ifdef TMPL
static const char tmpl[] = TMPL;
#define LEN ((int)sizeof(tmpl) - 1)
static char T[LEN + 1];

/* reference: characters with their positions, tokens, statements */
enum { END, NL, EQ, LB, RB, NAME, NUMBER, STRING, BAD };
static int at, line, col;                      /* next character; position of the last one read */
static int tl, tc, tk, ts, te;                 /* token: position, kind, text from ts to te */
static int step(void)
{
    int c = T[at];
    if (c == '\0') { col++; return 0; }
    at++;
    if (c == '\n') { line++; col = 0; }
    else if (c == '\t') col += 4 - col % 4;
    else col++;
    return c;
}
static int alpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static int digit(int c) { return (c >= '0') & (c <= '9'); }
static int blank(int c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\v') | (c == '\f'); }
static void token(void)
{
    int c = 0, l = 0, k = 0, q = 0;
    do { l = line; k = col; c = step(); } while (blank(c));
    tl = c == '\n' ? l : line;
    tc = c == '\n' ? k + 1 : col;
    ts = at - 1;
    if (c == 0) { tk = END; return; }
    if (c == '\n') { tk = NL; return; }
    if (c == ';')
    {
        do c = step(); while (c != 0 && c != '\n');
        tk = c == 0 ? END : NL;
        return;
    }
    if (c == '=') { tk = EQ; return; }
    if (c == '[') { tk = LB; return; }
    if (c == ']') { tk = RB; return; }
    if (alpha(c)) { tk = NAME; while (alpha(T[at]) | digit(T[at]) | (T[at] == '_')) step(); te = at; return; }
    if (digit(c)) { tk = NUMBER; while (digit(T[at])) step(); te = at; return; }
    if (c == '"')
    {
        ts = at;
        tk = STRING;
        for (q = 0;;)
        {
            te = at;
            c = step();
            if (c == '"' && q != '\\') return;
            if (c == 0 || (c == '\n' && q != '\\')) { tk = BAD; return; }
            q = c;
        }
    }
    tk = BAD;
}
#define MAXE 4
static char sec[LEN + 1], S[MAXE][LEN + 1], N[MAXE][LEN + 1], V[MAXE][LEN + 1];
static int ne;
static void text(char *d) { int i = 0; for (; ts + i < te; i++) d[i] = T[ts + i]; d[i] = '\0'; }
static int want(void)
{
#define BADTOK if (tk == BAD) return CONFIG_ELEXICAL
    line = 1; col = 0; at = 0; ne = 0; sec[0] = '\0';
    while (1)
    {
        token();
        BADTOK;
        if (tk == END) return CONFIG_OK;
        if (tk == NL) continue;
        if (tk == NAME)
        {
            VRT_ASSUME(ne < MAXE);
            text(N[ne]);
            token(); BADTOK;
            if (tk != EQ) return CONFIG_ESYNTAX;
            token(); BADTOK;
            if (tk != NAME && tk != NUMBER && tk != STRING) return CONFIG_ESYNTAX;
            text(V[ne]);
            for (int i = 0; i <= LEN; i++) S[ne][i] = sec[i];
            ne++;
            token(); BADTOK;
        }
        else if (tk == LB)
        {
            token(); BADTOK;
            if (tk != NAME) return CONFIG_ESYNTAX;
            for (int i = 0; i <= LEN; i++) sec[i] = '\0';
            text(sec);
            token(); BADTOK;
            if (tk != RB) return CONFIG_ESYNTAX;
            token(); BADTOK;
        }
        if (tk == END) return CONFIG_OK;
        if (tk != NL) return CONFIG_ESYNTAX;
    }
}
static int last(int i) { for (int k = i + 1; k < ne; k++) if (same(S[k], S[i]) && same(N[k], N[i])) return 0; return 1; }
static int have(const char *s, const char *n) { for (int k = 0; k < ne; k++) if (same(S[k], s) && same(N[k], n)) return 1; return 0; }
#endif

#if defined(TMPL) && !defined(PARAM)
void harness(void)
{
    VRT_BYTES(in, LEN + 1);
    config_t c;
    unsigned el = 999, ec = 999;
    int ret = 0, w = 0;
    char *text0 = NULL;
    pin(in, tmpl, LEN);
    for (int i = 0; i <= LEN; i++) T[i] = in[i];
    text0 = malloc(LEN + 1);
    for (int i = 0; i <= LEN; i++) text0[i] = in[i];
    w = want();
    config_create(&c);
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + FAILAT;
#endif
    ret = config_parse(&c, text0, &el, &ec);
#ifdef FAILAT
    if (vheap_failed) VRT_ASSERT(ret == CONFIG_ENOMEM, "out of memory is reported");
    VRT_WITNESS_POINT("failed allocation");
#else
    VRT_ASSERT(ret == w, "result of the parse");
    if (w == CONFIG_OK)
    {
        for (int i = 0; i < ne; i++)
        {
            const char *v = config_get(&c, S[i], N[i]);
            VRT_ASSERT(v != NULL, "every entry is there");
            if (v != NULL && last(i)) VRT_ASSERT(same(v, V[i]), "value of an entry");
            /* the same name in other sections is another entry */
            if (!have("", N[i])) VRT_ASSERT(config_get(&c, "", N[i]) == NULL, "entries belong to their section");
            if (sec[0] != '\0' && !have(sec, N[i])) VRT_ASSERT(config_get(&c, sec, N[i]) == NULL, "entries belong to their section");
        }
        if (!have("", "zz")) VRT_ASSERT(config_get(&c, "", "zz") == NULL, "no other entries");
        if (!have("zz", "a")) VRT_ASSERT(config_get(&c, "zz", "a") == NULL, "no other sections");
#ifdef W_OK
        VRT_WITNESS_POINT("accepted");
#endif
    }
    else
    {
        VRT_ASSERT(el == (unsigned)tl && ec == (unsigned)tc, "position of the error");
#ifdef W_BAD
        VRT_WITNESS_POINT("refused");
#endif
    }
#endif
    free(text0);
    config_destroy(&c);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
#endif

#ifdef SETS
#define NS 4
static char x[NS][3][4];
void harness(void)
{
    config_t c;
    int ret = 0;
    static const char *const nm[] = { "ok", "invalid argument", "out of memory", "lexical error", "syntax error", "unknown" };
    int e = (int)nd_range(0, 40) - 20;
    VRT_BYTES(in, NS * 3 * 2);
    for (int i = 0; i < NS; i++)
        for (int k = 0; k < 3; k++)
            for (int j = 0; j < 2; j++)
            {
                char ch = in[(i * 3 + k) * 2 + j];
#ifdef FREESET
                if (i < FREESET) VRT_ASSUME(((ch == 'a') | (ch == 'b') | (ch == 0)) & ((j == 0) | (ch != 'b')));
                else
#endif
                VRT_ASSUME(ch == (j == 0 ? (k == 0 ? "ssts" : k == 1 ? "nmnn" : "vwxy")[i] : 0));
                x[i][k][j] = ch;
            }
    config_create(&c);
    for (int i = 0; i < NS; i++)
    {
#ifdef FAILAT
        if (i == NS - 1) vheap_fail_at = vheap_allocs + FAILAT;
#endif
        ret = config_set(&c, x[i][0], x[i][1], x[i][2]);
#ifdef FAILAT
        if (i == NS - 1) { if (vheap_failed) VRT_ASSERT(ret == CONFIG_ENOMEM, "out of memory is reported"); continue; }
#endif
        VRT_ASSERT(ret == CONFIG_OK, "entry set");
    }
#ifndef FAILAT
    for (int i = 0; i < NS; i++)
    {
        int later = 0;
        const char *v = config_get(&c, x[i][0], x[i][1]);
        for (int k = i + 1; k < NS; k++) later |= same(x[k][0], x[i][0]) && same(x[k][1], x[i][1]);
        VRT_ASSERT(v != NULL, "entry found");
        if (v != NULL && !later) VRT_ASSERT(same(v, x[i][2]), "last value");
    }
    VRT_ASSERT(config_get(&c, "zz", "zz") == NULL, "nothing else");
#endif
#ifdef NAMES
    /* the description belongs to the error */
    const char *d = config_strerr(e);
    for (int i = 0; i < 6; i++)
        if (i == 5 || e == -i) { VRT_ASSERT(same(d, nm[i]), "description of an error"); break; }
#else
    (void)e; (void)nm;
#endif
    VRT_WITNESS_POINT("done");
    config_destroy(&c);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
#endif

#ifdef PARAM
/* the file: one of the calls may fail */
static int fault, opened, pos;
FILE *v_fopen(const char *name, const char *mode) { (void)mode; VRT_ASSERT(same(name, "proxy.conf"), "name of the file"); if (fault == 1) return NULL; opened++; return (FILE *)&opened; }
int v_fclose(FILE *f) { VRT_ASSERT(f == (FILE *)&opened && opened == 1, "the open file is closed"); opened--; return 0; }
int v_fseek(FILE *f, long off, int whence) { (void)f; if (whence == SEEK_END) { if (fault == 2) return -1; pos = LEN + (int)off; } else { if (fault == 3) return -1; pos = (int)off; } return 0; }
long v_ftell(FILE *f) { (void)f; return fault == 4 ? -1 : pos; }
size_t v_fread(void *b, size_t sz, size_t n, FILE *f)
{
    size_t k = sz * n;
    (void)f;
    if (k > (size_t)(LEN - pos)) k = LEN - pos;
    if (fault == 5 && k > 0) k--;
    for (size_t i = 0; i < k; i++) ((char *)b)[i] = T[pos + i];
    pos += (int)k;
    return k;
}
static const char *val(const char *s, const char *n, const char *d) { const char *r = d; for (int i = 0; i < ne; i++) if (same(S[i], s) && same(N[i], n)) r = V[i]; return r; }
void harness(void)
{
    VRT_BYTES(in, LEN + 1);
    param_t p;
    int w = 0, ret = 0, lv = -1;
    const char *l = NULL;
    pin(in, tmpl, LEN);
    for (int i = 0; i <= LEN; i++) T[i] = in[i];
#ifdef FAULT
    fault = (int)nd_range(0, 5);
#endif
    w = want();
    l = val("", "log_level", "info");
    lv = same(l, "error") ? COAP_LOG_ERROR : same(l, "warning") ? COAP_LOG_WARN : same(l, "notice") ? COAP_LOG_NOTICE : same(l, "info") ? COAP_LOG_INFO : same(l, "debug") ? COAP_LOG_DEBUG : -1;
#ifdef FAILAT
    vheap_fail_at = vheap_allocs + FAILAT;
#endif
    ret = param_create(&p, "proxy.conf");
#ifdef FAILAT
    if (vheap_failed) VRT_ASSERT(ret != 0, "out of memory is reported");
    VRT_WITNESS_POINT("failed allocation");
#else
    VRT_ASSERT((ret == 0) == (fault == 0 && w == CONFIG_OK && lv != -1), "the parameters are accepted or refused");
    if (ret == 0)
    {
        VRT_ASSERT((int)param_get_max_log_level(&p) == lv, "log level");
        VRT_ASSERT(same(param_get_port(&p), val("", "port", "4430")), "port");
        VRT_ASSERT(same(param_get_http_server_key_file_name(&p), val("http_server", "key_file", "http_server_privkey.pem")), "HTTP key");
        VRT_ASSERT(same(param_get_http_server_cert_file_name(&p), val("http_server", "cert_file", "http_server_cert.pem")), "HTTP certificate");
        VRT_ASSERT(same(param_get_http_server_trust_file_name(&p), val("http_server", "trust_file", "http_server_trust.pem")), "HTTP trust");
        VRT_ASSERT(same(param_get_coap_client_key_file_name(&p), val("coap_client", "key_file", "coap_client_privkey.pem")), "CoAP key");
        VRT_ASSERT(same(param_get_coap_client_cert_file_name(&p), val("coap_client", "cert_file", "coap_client_cert.pem")), "CoAP certificate");
        VRT_ASSERT(same(param_get_coap_client_trust_file_name(&p), val("coap_client", "trust_file", "coap_client_trust.pem")), "CoAP trust");
        VRT_WITNESS_POINT("accepted");
    }
#endif
    if (ret == 0) param_destroy(&p);
    VRT_ASSERT(opened == 0, "the file is closed");
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
#endif
