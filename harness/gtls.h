/* GnuTLS and the sockets as seen by FreeCoAP: every call that can fail may fail, certificates are symbolic */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <stdarg.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include "vrt.h"
#include "vheap.h"

#ifndef NTRY
#define NTRY 2
#endif
#ifndef NSESS
#define NSESS 4
#endif
/* what is true of the peer of a session */
struct world { int verify; unsigned status; int type; int peers; int import; int64_t exp, act; int name; };
struct gsess { int live, cred, prio, hs, tries, verified, request, client; struct world w; };
static struct gsess S[NSESS];
static int ns;                                  /* sessions created */
static int glob, creds, trusted, keyed, crl, prios, dhs, crts, imported, fds, fault;
static int64_t now;
static int cur;                                 /* the client whose packet is on the socket */
static const char *want_name;
static int can_fail = 1;
static int bad(void) { if (!can_fail || fault) return 0; if (nd_bool()) { fault = 1; return 1; } return 0; }

static void new_world(struct world *w)
{
#ifdef WORLD
    w->verify = nd_bool() ? GNUTLS_E_SUCCESS : -49;
    w->status = nd_u32();
    w->type = (int)nd_range(0, 4);
    w->peers = nd_bool();
    w->import = nd_bool() ? GNUTLS_E_SUCCESS : -43;
    w->exp = (int64_t)nd_u64();
    w->act = (int64_t)nd_u64();
    w->name = nd_bool();
#else
    w->verify = 0; w->status = 0; w->type = GNUTLS_CRT_X509; w->peers = 1; w->import = 0; w->exp = now + 5; w->act = now - 5; w->name = 1;
#endif
}
static int sound(struct gsess *s)               /* the peer of this session may be trusted */
{
    struct world *w = &s->w;
    return (s->hs != 0) & (w->verify == 0) & ((w->status & (GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND | GNUTLS_CERT_SIGNER_NOT_CA | GNUTLS_CERT_REVOKED)) == 0) &
           (w->type == GNUTLS_CRT_X509) & (w->peers != 0) & (w->import == 0) & (w->exp != -1) & (w->exp >= now) & (w->act != -1) & (w->act <= now) & ((want_name == NULL) | (w->name != 0));
}
static int perfect(struct gsess *s) { return (sound(s) != 0) & (s->w.status == 0) & (s->w.exp > now) & (s->w.act < now); }
static struct gsess *sess(gnutls_session_t x)
{
    struct gsess *s = (struct gsess *)x;
    VRT_ASSERT(s >= S && s < S + NSESS && s->live, "a live session is used");
    return s;
}

int gnutls_global_init(void) { if (bad()) return -1; glob++; return 0; }
void gnutls_global_deinit(void) { VRT_ASSERT(glob > 0, "library deinitialised once"); glob--; }
int gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { if (bad()) return -25; creds++; *c = (gnutls_certificate_credentials_t)&creds; return 0; }
void gnutls_certificate_free_credentials(gnutls_certificate_credentials_t c) { VRT_ASSERT(c == (gnutls_certificate_credentials_t)&creds && creds > 0, "credentials freed once"); creds--; trusted = keyed = crl = 0; }
int gnutls_certificate_set_x509_trust_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t)
{
    int r = 1;
    VRT_ASSERT(c == (gnutls_certificate_credentials_t)&creds && creds > 0 && strcmp(f, "trust.pem") == 0 && t == GNUTLS_X509_FMT_PEM, "the trust file of the application");
    if (bad()) r = nd_bool() ? 0 : -64;
    trusted = r > 0;
    return r;
}
int gnutls_certificate_set_x509_crl_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t)
{
    VRT_ASSERT(c == (gnutls_certificate_credentials_t)&creds && creds > 0 && strcmp(f, "crl.pem") == 0 && t == GNUTLS_X509_FMT_PEM, "the revocation list of the application");
    if (bad()) return nd_bool() ? 0 : -64;
    crl = 1;
    return 1;
}
int gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *f, const char *k, gnutls_x509_crt_fmt_t t)
{
    VRT_ASSERT(c == (gnutls_certificate_credentials_t)&creds && creds > 0 && strcmp(f, "cert.pem") == 0 && strcmp(k, "key.pem") == 0 && t == GNUTLS_X509_FMT_PEM, "the key and certificate of the application");
    if (bad()) return -64;
    keyed = 1;
    return 0;
}
int gnutls_dh_params_init(gnutls_dh_params_t *d) { if (bad()) return -25; dhs++; *d = (gnutls_dh_params_t)&dhs; return 0; }
void gnutls_dh_params_deinit(gnutls_dh_params_t d) { VRT_ASSERT(d == (gnutls_dh_params_t)&dhs && dhs > 0, "parameters freed once"); dhs--; }
int gnutls_dh_params_generate2(gnutls_dh_params_t d, unsigned bits) { (void)bits; VRT_ASSERT(d == (gnutls_dh_params_t)&dhs && dhs > 0, "live parameters"); return bad() ? -25 : 0; }
void gnutls_certificate_set_dh_params(gnutls_certificate_credentials_t c, gnutls_dh_params_t d) { (void)c; (void)d; }
int gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e) { (void)s; (void)e; if (bad()) return -50; prios++; *p = (gnutls_priority_t)&prios; return 0; }
void gnutls_priority_deinit(gnutls_priority_t p) { VRT_ASSERT(p == (gnutls_priority_t)&prios && prios > 0, "priorities freed once"); prios--; }
int gnutls_init(gnutls_session_t *x, unsigned flags)
{
    struct gsess *s = &S[ns];
    (void)flags;
    VRT_ASSERT(ns < NSESS, "harness: sessions");
    if (ns >= NSESS || bad()) return -25;
    s->live = 1;
    s->cred = s->prio = s->hs = s->tries = s->verified = s->request = 0;
    s->client = cur;
    new_world(&s->w);
    *x = (gnutls_session_t)s;
    ns++;
    return 0;
}
void gnutls_deinit(gnutls_session_t x) { struct gsess *s = sess(x); s->live = 0; }
int gnutls_credentials_set(gnutls_session_t x, gnutls_credentials_type_t t, void *c) { struct gsess *s = sess(x); VRT_ASSERT(t == GNUTLS_CRD_CERTIFICATE && c == (void *)&creds && creds > 0, "live credentials"); if (bad()) return -25; s->cred = 1; return 0; }
int gnutls_priority_set(gnutls_session_t x, gnutls_priority_t p) { struct gsess *s = sess(x); VRT_ASSERT(p == (gnutls_priority_t)&prios && prios > 0, "live priorities"); if (bad()) return -25; s->prio = 1; return 0; }
void gnutls_transport_set_ptr(gnutls_session_t x, gnutls_transport_ptr_t p) { (void)p; sess(x); }
void gnutls_transport_set_pull_function(gnutls_session_t x, gnutls_pull_func f) { (void)f; sess(x); }
void gnutls_transport_set_pull_timeout_function(gnutls_session_t x, gnutls_pull_timeout_func f) { (void)f; sess(x); }
void gnutls_transport_set_push_function(gnutls_session_t x, gnutls_push_func f) { (void)f; sess(x); }
void gnutls_dtls_set_mtu(gnutls_session_t x, unsigned m) { (void)m; sess(x); }
void gnutls_dtls_set_timeouts(gnutls_session_t x, unsigned a, unsigned b) { (void)a; (void)b; sess(x); }
unsigned gnutls_dtls_get_timeout(gnutls_session_t x) { sess(x); return 1500; }
void gnutls_certificate_server_set_request(gnutls_session_t x, gnutls_certificate_request_t r) { sess(x)->request = (r != GNUTLS_CERT_IGNORE); }
void gnutls_db_set_ptr(gnutls_session_t x, void *p) { (void)p; sess(x); }
void gnutls_db_set_store_function(gnutls_session_t x, gnutls_db_store_func f) { (void)f; sess(x); }
void gnutls_db_set_retrieve_function(gnutls_session_t x, gnutls_db_retr_func f) { (void)f; sess(x); }
void gnutls_db_set_remove_function(gnutls_session_t x, gnutls_db_remove_func f) { (void)f; sess(x); }
int gnutls_handshake(gnutls_session_t x)
{
    static const int err[] = { GNUTLS_E_INTERRUPTED, GNUTLS_E_FATAL_ALERT_RECEIVED, GNUTLS_E_WARNING_ALERT_RECEIVED, GNUTLS_E_TIMEDOUT, -10 };
    struct gsess *s = sess(x);
    int k = 0;
    VRT_ASSERT(s->cred && s->prio && (keyed || trusted), "the session is set up before the handshake");
    errno = 0;
    if (s->tries < NTRY && can_fail && nd_bool()) { s->tries++; return GNUTLS_E_AGAIN; }
    if (bad())
    {
        k = (int)nd_range(0, 4);
        for (int i = 0; i < 5; i++) if (k == i) return err[i];
    }
    s->hs = 1;
    return 0;
}
gnutls_kx_algorithm_t gnutls_kx_get(gnutls_session_t x) { sess(x); return 0; }
gnutls_cipher_algorithm_t gnutls_cipher_get(gnutls_session_t x) { sess(x); return 0; }
gnutls_mac_algorithm_t gnutls_mac_get(gnutls_session_t x) { sess(x); return 0; }
const char *gnutls_cipher_suite_get_name(gnutls_kx_algorithm_t a, gnutls_cipher_algorithm_t b, gnutls_mac_algorithm_t c) { (void)a; (void)b; (void)c; return NULL; }
gnutls_alert_description_t gnutls_alert_get(gnutls_session_t x) { sess(x); return 0; }
const char *gnutls_alert_get_name(gnutls_alert_description_t a) { (void)a; return "a"; }
const char *gnutls_strerror_name(int e) { (void)e; return "e"; }
const char *gnutls_strerror(int e) { (void)e; return "e"; }
static int server;
int gnutls_certificate_verify_peers2(gnutls_session_t x, unsigned *st)
{
    struct gsess *s = sess(x);
    VRT_ASSERT(s->hs, "the peer is verified after the handshake");
    if (server && !s->request) return -49;      /* the client was not asked for a certificate */
    *st = s->w.status | (trusted ? 0 : GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND);
    return s->w.verify;
}
gnutls_certificate_type_t gnutls_certificate_type_get(gnutls_session_t x) { return sess(x)->w.type; }
static gnutls_datum_t chain[2];
const gnutls_datum_t *gnutls_certificate_get_peers(gnutls_session_t x, unsigned *n) { struct gsess *s = sess(x); *n = s->w.peers ? 2 : 0; return s->w.peers ? chain : NULL; }
int gnutls_x509_crt_init(gnutls_x509_crt_t *c) { if (bad()) return -25; crts++; imported = 0; *c = (gnutls_x509_crt_t)&crts; return 0; }
void gnutls_x509_crt_deinit(gnutls_x509_crt_t c) { VRT_ASSERT(c == (gnutls_x509_crt_t)&crts && crts > 0, "certificate freed once"); crts--; imported = 0; }
static struct gsess *last(void) { return &S[ns > 0 ? ns - 1 : 0]; }
int gnutls_x509_crt_import(gnutls_x509_crt_t c, const gnutls_datum_t *d, gnutls_x509_crt_fmt_t f)
{
    VRT_ASSERT(c == (gnutls_x509_crt_t)&crts && crts > 0 && d == chain && f == GNUTLS_X509_FMT_DER, "the certificate of the peer is looked at");
    imported = last()->w.import == 0;
    return last()->w.import;
}
static void live_cert(gnutls_x509_crt_t c) { VRT_ASSERT(c == (gnutls_x509_crt_t)&crts && crts > 0 && imported, "the certificate of the peer is looked at"); }
time_t gnutls_x509_crt_get_expiration_time(gnutls_x509_crt_t c) { live_cert(c); return last()->w.exp; }
time_t gnutls_x509_crt_get_activation_time(gnutls_x509_crt_t c) { live_cert(c); return last()->w.act; }
unsigned gnutls_x509_crt_check_hostname(gnutls_x509_crt_t c, const char *n) { live_cert(c); VRT_ASSERT(want_name != NULL && strcmp(n, want_name) == 0, "the name of the peer"); return last()->w.name; }
int gnutls_bye(gnutls_session_t x, gnutls_close_request_t h) { (void)h; sess(x); return 0; }
int gnutls_session_get_data2(gnutls_session_t x, gnutls_datum_t *d) { sess(x); d->data = NULL; d->size = 0; return 0; }
int gnutls_session_set_data(gnutls_session_t x, const void *d, size_t n) { (void)d; (void)n; sess(x); return 0; }
int gnutls_rehandshake(gnutls_session_t x) { sess(x); return 0; }
static void vg_free(void *p) { v_free(p); }
#undef gnutls_malloc
#undef gnutls_free
gnutls_alloc_function gnutls_malloc = v_malloc;
gnutls_free_function gnutls_free = vg_free;

/* ---- sockets */
static struct sockaddr_storage peer_addr;
static struct addrinfo ai;
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **l)
{
    VRT_ASSERT(strcmp(h, "host") == 0 && strcmp(p, "port") == 0, "host and port of the application");
    if (bad()) return EAI_NONAME;
    ai.ai_family = hints->ai_family;
    ai.ai_socktype = hints->ai_socktype;
    ai.ai_addr = (struct sockaddr *)&peer_addr;
    ai.ai_addrlen = hints->ai_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
    *l = &ai;
    return 0;
}
void v_freeaddrinfo(struct addrinfo *l) { VRT_ASSERT(l == &ai, "list freed"); }
int v_socket(int a, int b, int c) { (void)a; (void)b; (void)c; if (bad()) { errno = EMFILE; return -1; } fds++; return 3; }
int v_close(int fd) { (void)fd; VRT_ASSERT(fds > 0, "descriptors closed once"); fds--; return 0; }
int v_connect(int fd, const struct sockaddr *a, socklen_t l) { (void)fd; (void)a; (void)l; if (bad()) { errno = ECONNREFUSED; return -1; } return 0; }
int v_bind(int fd, const struct sockaddr *a, socklen_t l) { (void)fd; (void)a; (void)l; if (bad()) { errno = EADDRINUSE; return -1; } return 0; }
int v_listen(int fd, int n) { (void)fd; (void)n; if (bad()) { errno = EADDRINUSE; return -1; } return 0; }
int v_setsockopt(int fd, int a, int b, const void *v, socklen_t l) { (void)fd; (void)a; (void)b; (void)v; (void)l; if (bad()) { errno = EINVAL; return -1; } return 0; }
int v_fcntl(int fd, int c, ...) { (void)fd; (void)c; if (bad()) { errno = EINVAL; return -1; } return 0; }
int v_timerfd_create(int a, int b) { (void)a; (void)b; if (bad()) { errno = EMFILE; return -1; } fds++; return 4; }
int v_timerfd_settime(int a, int b, const struct itimerspec *c, struct itimerspec *d) { (void)a; (void)b; (void)c; (void)d; return 0; }
time_t v_time(time_t *t) { if (t != NULL) *t = now; return now; }
unsigned v_sleep(unsigned s) { (void)s; return 0; }
char *v_strerror(int e) { (void)e; return "e"; }
const char *v_inet_ntop(int af, const void *a, char *d, socklen_t n) { (void)af; (void)a; VRT_ASSERT(n > 2, "space for an address"); d[0] = 'x'; d[1] = '\0'; return d; }
long v_random(void) { return 4; }
void v_srandom(unsigned s) { (void)s; }
static void balanced(const char *what) { (void)what; int live = 0; for (int i = 0; i < NSESS; i++) live += S[i].live; VRT_ASSERT(live == 0 && crts == 0 && fds == 0, "sessions, certificates and descriptors are released"); }
/* ---- locks and random numbers */
#include <pthread.h>
static int mutexes, locked;
int v_pthread_mutexattr_init(pthread_mutexattr_t *a) { (void)a; return 0; }
int v_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { (void)a; (void)t; return 0; }
int v_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int v_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; if (bad()) return ENOMEM; mutexes++; return 0; }
int v_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; VRT_ASSERT(mutexes > 0 && !locked, "an unlocked lock is destroyed"); mutexes--; return 0; }
int v_pthread_mutex_lock(pthread_mutex_t *m) { (void)m; VRT_ASSERT(mutexes > 0 && !locked, "the lock is free"); locked = 1; return 0; }
int v_pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; VRT_ASSERT(locked, "the lock is held"); locked = 0; return 0; }
int v_rand(void) { return 4; }
void v_srand(unsigned s) { (void)s; }
