/* TLS sockets and session caches of the proxy
 *   MODE 1 tls_sock_read, tls_sock_read_full   2 tls_sock_write, tls_sock_write_full
 *        3 cache of the server   4 cache of the client   5 tls_ssock_open, tls_ssock_close */
#include "gtls.h"
#include "tls_sock.h"

#define LEN 4
static tls_sock_t sk;
static char stream[16], data[LEN];
static int pos, eof, again, intr, tmo, err, wait_r, wait_w, rehs;
static const void *last_buf; static size_t last_len; static int retry;
#ifndef MAXN
#define MAXN 3
#endif
#ifndef EVENTS
#define EVENTS 4
#endif
static int ev;
int v_accept(int fd, struct sockaddr *a, socklen_t *l) { (void)fd; (void)a; (void)l; return -1; }
int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)e;
    VRT_ASSERT(n >= 4 && tv != NULL && tv->tv_sec <= 7, "waited for no longer than the limit");
    if (r != NULL && FD_ISSET(3, r)) wait_r = 1;
    if (w != NULL && FD_ISSET(3, w)) wait_w = 1;
    VRT_ASSERT((MODE == 1 || rehs) ? wait_r : wait_w, "the socket is waited for");
    if (ev >= EVENTS) return 1;
    ev++;
    switch (nd_range(0, 3))
    {
    case 0: tmo = 1; return 0;
    case 1: intr = 1; errno = EINTR; return -1;
    case 2: err = 1; errno = EIO; return -1;
    default: return 1;
    }
}
static ssize_t event(void)
{
    if (ev >= EVENTS) return 1;
    ev++;
    switch (nd_range(0, 5))
    {
    case 0: again++; return GNUTLS_E_AGAIN;
    case 1: intr = 1; return GNUTLS_E_INTERRUPTED;
    case 2: err = 1; return -54;
    case 3: eof = 1; return 0;
#ifdef REHS
    case 4: if (MODE == 1 && !rehs) { rehs = 1; return GNUTLS_E_REHANDSHAKE; } return 1;
#endif
    default: return 1;
    }
}
ssize_t gnutls_record_recv(gnutls_session_t x, void *b, size_t n)
{
    ssize_t r = 0;
    int k = 0;
    sess(x);
    VRT_ASSERT(!eof && !err && !tmo && !intr, "nothing is read after the end");
    VRT_ASSERT(n > 0 && n <= LEN, "space asked for");
    r = event();
    if (r != 1) return r;
    k = (int)nd_range(1, MAXN);
    if (k > (int)n) k = (int)n;
    for (int i = 0; i < k; i++) ((char *)b)[i] = stream[pos + i];
    pos += k;
    return k;
}
ssize_t gnutls_record_send(gnutls_session_t x, const void *b, size_t n)
{
    ssize_t r = 0;
    int k = 0;
    sess(x);
    VRT_ASSERT(!eof && !err && !tmo && !intr, "nothing is written after the end");
    VRT_ASSERT(!retry || (b == last_buf && n == last_len) || (b == NULL && n == 0), "the same bytes are written again");
    if (n == 0 && !retry) return 0;
    if (retry && n == 0) { b = last_buf; n = last_len; }
    retry = 0;
    r = event();
    if (r == GNUTLS_E_AGAIN) { retry = 1; last_buf = b; last_len = n; return r; }
    if (r != 1) return r;
    VRT_ASSERT(n <= LEN, "bytes of the caller");
    k = (int)nd_range(1, MAXN);
    if (k > (int)n) k = (int)n;
    for (int i = 0; i < k; i++) stream[pos + i] = ((const char *)b)[i];
    pos += k;
    return k;
}
static int eq(const char *a, const char *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }

#if MODE <= 2
static void failed(ssize_t r)
{
    VRT_ASSERT(r != 0 || eof, "the end is reported if the connection ended");
    VRT_ASSERT(r >= 0 || ((r == SOCK_TIMEOUT) ? tmo : fault ? 1 : (r == SOCK_INTR) ? intr : err), "the failure is reported as what it is");
    VRT_ASSERT(!rehs || S[0].hs || r <= 0, "a new handshake is completed");
    VRT_ASSERT(r == 0 || r < 0, "bytes are counted exactly");
}
void harness(void)
{
    char buf[LEN + 1];
    ssize_t r = 0;
    S[0].live = S[0].cred = S[0].prio = 1; ns = 1; keyed = 1;
    sk.session = (gnutls_session_t)&S[0];
    sk.sd = 3; sk.timeout = 7; sk.type = TLS_SOCK_SERVER;
    VRT_BYTES(in, LEN);
    for (int i = 0; i < LEN; i++) data[i] = in[i];
    buf[LEN] = 'E';
#if MODE == 1
    for (int i = 0; i < (int)sizeof(stream); i++) stream[i] = (char)(i < LEN ? data[i] : 'z');
#ifdef FULL
    r = tls_sock_read_full(&sk, buf, LEN);
    if (r == LEN) { VRT_ASSERT(pos == LEN && eq(buf, data, LEN), "the bytes received, in order"); VRT_WITNESS_POINT("all"); }
#else
    r = tls_sock_read(&sk, buf, LEN);
    if (r > 0) { VRT_ASSERT(pos == r && r <= LEN && eq(buf, data, r), "the bytes received, in order"); VRT_WITNESS_POINT("some"); }
#endif
#else
    for (int i = 0; i < LEN; i++) buf[i] = data[i];
#ifdef FULL
    r = tls_sock_write_full(&sk, buf, LEN);
    if (r == LEN) { VRT_ASSERT(pos == LEN && eq(stream, data, LEN), "the bytes given, in order"); VRT_WITNESS_POINT("all"); }
#else
    r = tls_sock_write(&sk, buf, LEN);
    if (r > 0) { VRT_ASSERT(pos == r && r <= LEN && eq(stream, data, r), "the bytes given, in order"); VRT_WITNESS_POINT("some"); }
#endif
#endif
    else { failed(r); VRT_WITNESS_POINT("failed"); }
    VRT_ASSERT(buf[LEN] == 'E', "nothing beyond the buffer");
}
#endif

#if MODE == 3 || MODE == 4
/* what was stored: key (one or two letters), data (up to two bytes); last first */
#define KMAX 8
static struct { unsigned char k[2], d[2]; unsigned ks, ds; int there; } M[KMAX];
static int nm;
static int find(const unsigned char *k, unsigned n)
{
    for (int i = nm - 1; i >= 0; i--) if (M[i].ks == n && M[i].k[0] == k[0] && (n < 2 || M[i].k[1] == k[1])) return i;
    return -1;
}
#if MODE == 3
static tls_server_t C;
#else
static tls_client_t C;
#endif
static int put(unsigned char *k, unsigned kn, unsigned char *d, unsigned dn)
{
    gnutls_datum_t D = { d, dn };
#if MODE == 3
    gnutls_datum_t K = { k, kn };
    return tls_server_set(&C, K, D);
#else
    char a[3] = { 0 };
    for (unsigned i = 0; i < kn; i++) a[i] = (char)k[i];
    return tls_client_set(&C, a, D);
#endif
}
static void check(unsigned char *k, unsigned kn, int must)
{
    gnutls_datum_t r = { NULL, 0 };
    int i = find(k, kn), ok = 0;
#if MODE == 3
    gnutls_datum_t K = { k, kn };
    r = tls_server_get(&C, K);
#else
    char a[3] = { 0 };
    for (unsigned j = 0; j < kn; j++) a[j] = (char)k[j];
    r = tls_client_get(&C, a);
#endif
    VRT_ASSERT(!locked, "the lock is released");
    if (r.size == 0) VRT_ASSERT(i < 0 || !M[i].there || M[i].ds == 0 || !must, "a stored session is found");
    else
    {
        VRT_ASSERT(i >= 0 && M[i].there, "a session that was not stored is not found");
        if (i >= 0)
        {
            ok = r.size == M[i].ds && r.data[0] == M[i].d[0] && (r.size < 2 || r.data[1] == M[i].d[1]);
            VRT_ASSERT(ok, "the data last stored for the session");
        }
        VRT_WITNESS_POINT("found");
    }
#if MODE == 3
    if (r.data != NULL) v_free(r.data);
#endif
}
static void key(unsigned char *k, unsigned *n)
{
    k[0] = (unsigned char)nd_range('a', 'b');
    k[1] = (unsigned char)nd_range('a', 'b');
    *n = (unsigned)nd_range(1, 2);
}
void harness(void)
{
    static const char ops[] = OPS;              /* s store, d delete (server), l store too much, g look up */
    unsigned char k[2], d[2], big[40];
    unsigned kn = 0, dn = 0;
    int r = 0, i = 0;
    can_fail = 0;
    now = 1000;
    VRT_ASSERT(tls_init() == SOCK_OK, "set up");
#if MODE == 3
    r = tls_server_create(&C, "trust.pem", "cert.pem", "key.pem");
#else
    r = tls_client_create(&C, "trust.pem", "cert.pem", "key.pem");
#endif
    VRT_ASSERT(r == SOCK_OK, "set up");
    for (i = 0; i < FILL; i++)
    {
        k[0] = (unsigned char)('A' + i / 10); k[1] = (unsigned char)('0' + i % 10);
        d[0] = 'f'; d[1] = 'f';
        VRT_ASSERT(put(k, 2, d, 2) == SOCK_OK, "stored");
    }
    for (const char *o = ops; *o != '\0'; o++)
    {
        if (*o == 'm')                           /* as much as fits */
        {
            static unsigned char huge[2048];
            gnutls_datum_t r2, V = { huge, sizeof(huge) };
            for (i = 0; i < (int)sizeof(huge); i++) huge[i] = (unsigned char)i;
            huge[2047] = nd_u8();
#if MODE == 3
            gnutls_datum_t K = { huge + 64, TLS_SERVER_MAX_SESSION_ID_SIZE };
            VRT_ASSERT(tls_server_set(&C, K, V) == SOCK_OK, "stored");
            r2 = tls_server_get(&C, K);
#else
            char a[SOCK_INET_ADDRSTRLEN];
            for (i = 0; i < (int)sizeof(a) - 1; i++) a[i] = 'c';
            a[i] = '\0';
            VRT_ASSERT(tls_client_set(&C, a, V) == SOCK_OK, "stored");
            r2 = tls_client_get(&C, a);
#endif
            VRT_ASSERT(r2.size == sizeof(huge) && r2.data != NULL && r2.data[0] == 0 && r2.data[1030] == 6 && r2.data[2047] == huge[2047], "the data last stored for the session");
#if MODE == 3
            if (r2.data != NULL) v_free(r2.data);
#endif
            continue;
        }
        if (*o == 'l')
        {
            gnutls_datum_t L = { big, 0 };
            for (i = 0; i < 40; i++) big[i] = 'b';
            (void)L;
#if MODE == 3
            gnutls_datum_t V = { big, 1 };
            L.size = TLS_SERVER_MAX_SESSION_ID_SIZE + 1;
            VRT_ASSERT(tls_server_set(&C, L, V) != SOCK_OK, "a key that is too long is refused");
            V.size = TLS_SERVER_MAX_SESSION_DATA_SIZE + 1;
            L.size = 2;
            VRT_ASSERT(tls_server_set(&C, L, V) != SOCK_OK, "data that is too long is refused");
#else
            char a[] = "a";
            L.size = TLS_CLIENT_MAX_SESSION_DATA_SIZE + 1;
            VRT_ASSERT(tls_client_set(&C, a, L) != SOCK_OK, "data that is too long is refused");
#endif
            VRT_ASSERT(!locked, "the lock is released");
            continue;
        }
        key(k, &kn);
        i = find(k, kn);
        if (*o == 's')
        {
            d[0] = nd_u8(); d[1] = nd_u8(); dn = (unsigned)nd_range(1, 2);
            r = put(k, kn, d, dn);
            VRT_ASSERT(r == SOCK_OK && !locked, "stored");
            if (i < 0) i = nm++;
            M[i].k[0] = k[0]; M[i].k[1] = k[1]; M[i].ks = kn;
            M[i].d[0] = d[0]; M[i].d[1] = d[1]; M[i].ds = dn;
            M[i].there = 1;
            check(k, kn, 1);
        }
#if MODE == 3
        else if (*o == 'd')
        {
            gnutls_datum_t K = { k, kn };
            int had = i >= 0 && M[i].there;
            r = tls_server_delete(&C, K);
            VRT_ASSERT(!locked, "the lock is released");
            VRT_ASSERT((r == SOCK_OK) == had || FILL > 40, "the session was there");
            if (i >= 0) M[i].there = 0;
            check(k, kn, 1);
        }
#endif
        else check(k, kn, FILL + nm <= 50);
    }
#if MODE == 3
    tls_server_destroy(&C);
#else
    tls_client_destroy(&C);
#endif
    tls_deinit();
    VRT_ASSERT(glob == 0 && creds == 0 && prios == 0 && dhs == 0 && vheap_live == 0 && mutexes == 0, "everything is released");
}
#endif

#if MODE == 5
void harness(void)
{
    static tls_server_t sv;
    static tls_ssock_t ss;
    int r = 0;
    int t = (int)nd_range(0, 3) - 1;
    r = tls_ssock_open(&ss, &sv, "8443", t, 5);
    if (r == SOCK_OK)
    {
        VRT_ASSERT(t >= 0 && !fault && fds == 1 && ss.sd == 3 && ss.server == &sv && ss.timeout == t, "the socket is set up");
        tls_ssock_close(&ss);
        VRT_WITNESS_POINT("opened");
    }
    else
    {
        VRT_ASSERT(fault || t < 0, "no failure without reason");
        VRT_WITNESS_POINT("failed");
    }
    balanced("");
}
#endif
