/* authentication of the peer: nothing is exchanged unless the certificate of the peer was found to be good
 *   ROLE  1 CoAP client over DTLS, 2 CoAP server over DTLS, 3 TLS client (proxy), 4 TLS server (proxy)
 *   NAME  expected name of the peer, or NULL */
#include "gtls.h"
#if ROLE == 1
#include "coap_client.h"
#elif ROLE == 2
#include "coap_server.h"
#include "vmem.h"
#else
#include "tls_sock.h"
#endif
#ifndef NAME
#define NAME NULL
#endif

static int timeouts;
#if ROLE != 2
int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)e;
    VRT_ASSERT(n == 4 && (r == NULL || FD_ISSET(3, r)) && (w == NULL || FD_ISSET(3, w)) && tv != NULL, "the socket is waited for, with a limit");
    if (ROLE >= 3 ? bad() : 0) return 0;
    if (ROLE < 3 && nd_bool()) { FD_ZERO(r); timeouts++; return 0; }
    if (bad()) { errno = EIO; return -1; }
    return 1;
}
#endif

#if ROLE == 1
ssize_t v_recv(int a, void *b, size_t c, int d) { (void)a; (void)b; (void)c; (void)d; return -1; }
ssize_t v_sendto(int a, const void *b, size_t c, int d, const struct sockaddr *e, socklen_t f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; return -1; }
ssize_t gnutls_record_send(gnutls_session_t x, const void *b, size_t n) { (void)b; (void)n; sess(x); VRT_ASSERT(0, "nothing is sent"); return -1; }
ssize_t gnutls_record_recv(gnutls_session_t x, void *b, size_t n) { (void)b; (void)n; sess(x); VRT_ASSERT(0, "nothing is received"); return -1; }
void harness(void)
{
    static coap_client_t c;
    int ret = 0;
    now = (int64_t)nd_u64();
    VRT_ASSUME(now > 100 && now < ((int64_t)1 << 60));
    want_name = NAME;
    ret = coap_client_create(&c, "host", "port", "key.pem", "cert.pem", "trust.pem", CRLFILE, NAME);
    if (ret == 0)
    {
        VRT_ASSERT(!fault && ns == 1 && S[0].live && trusted && keyed && sound(&S[0]), "the server is authenticated");
        VRT_ASSERT(CRLFILE == NULL || crl, "the revocation list is used");
        VRT_WITNESS_POINT("accepted");
        coap_client_destroy(&c);
    }
    else
    {
        VRT_ASSERT(fault || ns == 0 || !perfect(&S[0]), "a server with a good certificate is accepted");
        VRT_WITNESS_POINT("refused");
    }
    balanced("");
    VRT_ASSERT(glob == 0 && creds == 0 && prios == 0, "everything is released");
}
#endif

#if ROLE == 2
static const char script[] = SCRIPT;            /* clients whose packets arrive */
static int at = -1, handled, waiting;
static coap_server_t srv;
int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)w; (void)e; (void)n;
    VRT_ASSERT(FD_ISSET(3, r), "the socket is waited for");
    if (tv != NULL)                             /* within a handshake */
    {
        if (nd_bool()) { FD_ZERO(r); return 0; }
        if (bad()) { errno = EIO; return -1; }
        return 1;
    }
    at++;
    if (script[at] == '\0') { errno = EBADF; return -1; }
    cur = script[at];
    FD_ZERO(r);
    FD_SET(3, r);
    return 1;
}
ssize_t v_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    coap_ipv_sockaddr_in_t *s = (coap_ipv_sockaddr_in_t *)a;
    (void)fd; (void)n; (void)fl;
    memset(s, 0, sizeof(*s));
    s->COAP_IPV_SIN_PORT = cur;
    *l = sizeof(*s);
    ((char *)b)[0] = 0x16;
    return 1;
}
ssize_t v_sendto(int a, const void *b, size_t c, int d, const struct sockaddr *e, socklen_t f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; return -1; }
static int peer_ok(struct gsess *s) { return s->live && s->client == cur && trusted && keyed && sound(s); }
ssize_t gnutls_record_recv(gnutls_session_t x, void *b, size_t n)
{
    static const char get[] = { 0x50, 0x01, 0x12, 0 };
    struct gsess *s = sess(x);
    VRT_ASSERT(peer_ok(s), "only authenticated clients are listened to");
    VRT_ASSERT(n >= 4, "space for a message");
    memcpy(b, get, 4);
    ((char *)b)[3] = (char)at;
    return 4;
}
ssize_t gnutls_record_send(gnutls_session_t x, const void *b, size_t n) { (void)b; VRT_ASSERT(peer_ok(sess(x)), "only authenticated clients are answered"); return (ssize_t)n; }
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    (void)req;
    int ok = 0;
    for (int i = 0; i < NSESS; i++) ok |= peer_ok(&S[i]) && (gnutls_session_t)&S[i] == t->session;
    VRT_ASSERT(ok, "only requests of authenticated clients are handled");
    handled++;
    VRT_WITNESS_POINT("handled");
    return coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
}
void harness(void)
{
    int ret = 0;
    now = (int64_t)nd_u64();
    VRT_ASSUME(now > 100 && now < ((int64_t)1 << 60));
    server = 1;
#ifndef CREATE
    can_fail = 0;
#endif
    ret = coap_server_create(&srv, handle, "host", "port", "key.pem", "cert.pem", "trust.pem", CRLFILE);
    VRT_ASSERT((ret == 0) == !fault, "the server is set up or an error is reported");
    if (ret != 0) { balanced(""); VRT_ASSERT(glob == 0 && creds == 0 && prios == 0 && dhs == 0, "everything is released"); return; }
    VRT_ASSERT(CRLFILE == NULL || crl, "the revocation list is used");
#ifndef NOFAULT
    can_fail = 1;
#endif
    coap_server_run(&srv);
    VRT_ASSERT(script[at] == '\0', "a client that is refused does not stop the server");
#ifdef PERFECT
    /* a client with a good certificate is served once the handshake succeeded */
    VRT_ASSERT(handled >= 1 || fault || !perfect(&S[PERFECT]), "authenticated clients are served");
#endif
    (void)waiting;
    can_fail = 0;
    coap_server_destroy(&srv);
    balanced("");
    VRT_ASSERT(glob == 0 && creds == 0 && prios == 0 && dhs == 0, "everything is released");
}
#endif

#if ROLE >= 3
static tls_client_t cl;
static tls_server_t sv;
ssize_t gnutls_record_send(gnutls_session_t x, const void *b, size_t n) { (void)b; (void)n; sess(x); VRT_ASSERT(0, "nothing is sent"); return -1; }
ssize_t gnutls_record_recv(gnutls_session_t x, void *b, size_t n) { (void)b; (void)n; sess(x); VRT_ASSERT(0, "nothing is received"); return -1; }
int v_accept(int fd, struct sockaddr *a, socklen_t *l) { (void)fd; (void)a; (void)l; if (timeouts < 1 && nd_bool()) { timeouts++; errno = EAGAIN; return -1; } if (bad()) { errno = EIO; return -1; } fds++; return 3; }
void harness(void)
{
    static tls_sock_t s;
    static tls_ssock_t ss;
    int ret = 0, opened = 0;
    now = (int64_t)nd_u64();
    VRT_ASSUME(now > 100 && now < ((int64_t)1 << 60));
    want_name = NAME;
    ret = tls_init();
    if (ret != SOCK_OK) { VRT_ASSERT(fault, "no failure without reason"); return; }
#if ROLE == 3
    ret = tls_client_create(&cl, "trust.pem", "cert.pem", "key.pem");
    if (ret == SOCK_OK) { opened = 1; ret = tls_sock_open(&s, &cl, "host", "port", NAME, 5); }
#else
    server = 1;
    ret = tls_server_create(&sv, "trust.pem", "cert.pem", "key.pem");
    if (ret == SOCK_OK) { opened = 1; memset(&ss, 0, sizeof(ss)); ss.server = &sv; ss.sd = 3; ss.timeout = 5; ret = tls_ssock_accept(&ss, &s); }
#endif
    if (ret == SOCK_OK)
    {
        VRT_ASSERT(ns == 1 && S[0].live && trusted && sound(&S[0]), "the peer is authenticated");
        VRT_ASSERT(s.sd == 3 && s.timeout == 5, "the socket is set up");
        VRT_WITNESS_POINT("accepted");
        tls_sock_close(&s);
    }
    else
    {
        VRT_ASSERT(fault || ns == 0 || !trusted || !perfect(&S[0]), "a peer with a good certificate is accepted");
        VRT_WITNESS_POINT("refused");
    }
    balanced("");
    if (opened)
    {
#if ROLE == 3
        tls_client_destroy(&cl);
#else
        tls_server_destroy(&sv);
#endif
    }
    tls_deinit();
    VRT_ASSERT(glob == 0 && creds == 0 && prios == 0 && dhs == 0 && vheap_live == 0, "everything is released");
}
#endif
