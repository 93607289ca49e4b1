/* uri: uri_parse, uri_copy, uri_set_* and uri_generate on strings given by templates (\2 any byte but NUL, \3 any byte but NUL and '%').
 * The oracle is an independent index-based reference for the grammar URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ] of RFC 3986. */
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "vrt.h"
#include "vheap.h"
#include "uri.h"

#include "uri_ref.h"

static char *comp(uri_t *u, int k)
{
    switch (k)
    {
        case SCHEME: return u->scheme; case USER: return u->userinfo; case HOST: return u->host; case PORT: return u->port;
        case PATH: return u->path; case QUERY: return u->query; default: return u->fragment;
    }
}
static int same(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return a[n] == '\0'; }
static void compare(uri_t *u)
{
    for (int k = 0; k < NCOMP; k++)
    {
        if (have[k]) VRT_ASSERT(comp(u, k) != NULL && same(comp(u, k), X[k], XL[k]), "component of the URI");
        else VRT_ASSERT(comp(u, k) == NULL, "no such component in the URI");
    }
}
static void pin(char *in, const char *tmpl, int n)
{
    for (int i = 0; i < n; i++)
    {
        if (tmpl[i] == 2) VRT_ASSUME(in[i] != 0);
        else if (tmpl[i] == 3) VRT_ASSUME(in[i] != 0 && in[i] != '%');
        else in[i] = tmpl[i];
    }
    in[n] = '\0';
}
static void generate(uri_t *u)
{
    char *buf = NULL;
    size_t num = 0, i = 0;
    text();
#ifdef BUFLEN
    {
        /* too small, just too small, just large enough */
        size_t len = nd_range(0, BUFLEN);
        for (i = 0; i < BUFLEN; i++) if (i == len) { len = i; break; }
        buf = malloc(len);
        num = uri_generate(u, buf, len);
        VRT_ASSERT(num == (size_t)TL, "length of the generated URI");
        if (num < len)
        {
            VRT_ASSERT(same(buf, T, TL), "generated URI");
            VRT_WITNESS_POINT("fits");
        }
        else if (len > 0)
        {
            for (i = 0; i < len && buf[i] != '\0'; i++) VRT_ASSERT(buf[i] == T[i], "what fits is a prefix of the URI");
            VRT_ASSERT(i < len, "the text in the buffer is terminated");
        }
    }
#else
    {
        uri_t v;
        buf = malloc(TL + 1);
        num = uri_generate(u, buf, TL + 1);
        VRT_ASSERT(num == (size_t)TL, "length of the generated URI");
        VRT_ASSERT(same(buf, T, TL), "generated URI");
        /* the generated text means the same; a path of a URI without authority does not start with two slashes */
        VRT_ASSUME(have[SCHEME] || have[PATH]);
        if (!have[HOST] && !have[USER] && !have[PORT]) VRT_ASSUME(XL[PATH] < 2 || X[PATH][0] != '/' || X[PATH][1] != '/');
        uri_create(&v);
        VRT_ASSERT(uri_parse(&v, buf) == 0, "the generated URI is accepted");
        compare(&v);
        uri_destroy(&v);
        VRT_WITNESS_POINT("round trip");
    }
#endif
    free(buf);
}
void harness(void)
{
    uri_t u;
    int ret = 0;
    uri_create(&u);
#ifdef SET
    {
        static const char *const tm[NCOMP] = { SET };
        for (int k = 0; k < NCOMP; k++)
            if (tm[k] != NULL)
            {
                int n = (int)strlen(tm[k]);
                VRT_BYTES(in, MAXL);
                int b0 = bad;
                pin(in, tm[k], n);
                /* the text of a path starts with a slash */
                if (k == PATH && (n == 0 || in[0] != '/')) X[PATH][XL[PATH]++] = '/';
                bad = 0;
                expect(k, in, 0, n);
                for (int again = 0; again < 2; again++)         /* the second call replaces the first value */
                {
                    switch (k)
                    {
                        case SCHEME: ret = uri_set_scheme(&u, in); break;
                        case USER: ret = uri_set_userinfo(&u, in); break;
                        case HOST: ret = uri_set_host(&u, in); break;
                        case PORT: ret = uri_set_port(&u, in); break;
                        case PATH: ret = uri_set_path(&u, in); break;
                        case QUERY: ret = uri_set_query(&u, in); break;
                        default: ret = uri_set_fragment(&u, in);
                    }
                    if (!lenient) VRT_ASSERT(ret == (bad ? -EBADMSG : 0), "result of setting a component");
                }
                if (bad) { have[k] = 0; XL[k] = 0; }
                bad |= b0;
            }
        if (!lenient)
        {
            compare(&u);
            if (!bad) generate(&u);
        }
    }
#else
    {
        static const char tmpl[] = TMPL;
        VRT_BYTES(in, sizeof(tmpl));
        pin(in, tmpl, sizeof(tmpl) - 1);
        ref(in, sizeof(tmpl) - 1);
#ifdef OLD
        /* what an earlier parse left is replaced */
        VRT_ASSERT(uri_parse(&u, "o://u@o:1/o?o#o") == 0, "accepted");
#endif
#ifdef FAILAT
        vheap_fail_at = vheap_allocs + FAILAT;
#endif
        ret = uri_parse(&u, in);
#ifdef FAILAT
        if (vheap_failed) VRT_ASSERT(ret == -ENOMEM, "out of memory is reported");
        if (vheap_failed) VRT_WITNESS_POINT("failed allocation");
        if (!vheap_failed)
#endif
        if (!lenient)
        {
            VRT_ASSERT(ret == (bad ? -EBADMSG : 0), "result of the parse");
            if (ret == 0) compare(&u);
#ifndef NO_W
            if (ret == 0) VRT_WITNESS_POINT("parsed");
#endif
        }
        if (ret != 0) for (int k = 0; k < NCOMP; k++) VRT_ASSERT(comp(&u, k) == NULL, "nothing is left by a parse that fails");
#ifdef COPY
        if (ret == 0 && !lenient)
        {
            uri_t v;
            uri_create(&v);
            if (COPY == 2) VRT_ASSERT(uri_parse(&v, "o://u@o:1/o?o#o") == 0, "accepted");
#ifdef COPYFAIL
            vheap_failed = 0; vheap_fail_at = vheap_allocs + COPYFAIL;
            ret = uri_copy(&v, &u);
            if (vheap_failed)
            {
                VRT_ASSERT(ret == -ENOMEM, "out of memory is reported by a copy");
                for (int k = 0; k < NCOMP; k++) VRT_ASSERT(comp(&v, k) == NULL, "nothing is left by a copy that fails");
                VRT_WITNESS_POINT("copy failed");
            }
            else
#else
            ret = uri_copy(&v, &u);
#endif
            {
                VRT_ASSERT(ret == 0, "result of the copy");
                for (int k = 0; k < NCOMP; k++) if (comp(&v, k) != NULL) VRT_ASSERT(comp(&v, k) != comp(&u, k), "the copy has strings of its own");
                uri_destroy(&u);
                compare(&v);
                VRT_WITNESS_POINT("copied");
            }
            uri_destroy(&v);
        }
#endif
#ifdef GEN
        if (ret == 0 && !lenient) generate(&u);
#endif
    }
#endif
#ifdef W_ANY
    VRT_WITNESS_POINT("end");
#endif
    uri_destroy(&u);
    VRT_ASSERT(vheap_live == 0, "nothing leaked");
}
