/* network and clock of one server: descriptor 5 is the socket, 10.. the timers of its transactions */
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <arpa/inet.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include "vnet.h"
#include "msgio.h"
#include "vserver.h"
unsigned vsev_n, vtx_to[NTX], vtx_ev[NTX];
int vsev_done;
unsigned vt_n, vt_cl[NTIM], vt_at[NTIM];
long vt_ms[NTIM];
int v_open_sd, v_open_tfd;
long v_now = 1000;
static int tfd_open[NTFD], tfd_armed[NTFD], tfd_n, tfd_owner[NTFD];
static int cur = -1;                /* client of the datagram waiting at the socket, -1 none */
#ifdef RANDC
int v_rand(void) { return RANDC; }
#else
int v_rand(void) { int r = nd_int(); VRT_ASSUME(r >= 0); return r; }
#endif
#ifdef JITTER_ANY
int v_jitter(void) { int r = nd_int(); VRT_ASSUME(r >= 0); return r; }
#elif defined(JITTER)
int v_jitter(void) { return JITTER; }
#else
int v_jitter(void) { return v_rand(); }
#endif
long v_time(void) { return v_now; }
#ifndef ADDRB
#define ADDRB 0                     /* which part of the address tells the clients apart: 0 port, 1 last byte of the address, 2 first byte */
#endif
void v_addr_of(coap_ipv_sockaddr_in_t *a, unsigned c)
{
    unsigned char *p = (unsigned char *)&a->sin6_addr;
    memset(a, 0, sizeof(*a));
    a->sin6_family = AF_INET6;
    a->sin6_port = (in_port_t)(ADDRB == 0 ? 0x3316 + (c << 8) : 0x3316);
    if (ADDRB == 1) p[15] = (unsigned char)(c + 1);
    if (ADDRB == 2) p[0] = (unsigned char)(c + 1);
    if (ADDRB == 3) a->sin6_scope_id = c;
}
int v_client_of(const coap_ipv_sockaddr_in_t *a)
{
    unsigned c = 0;
    coap_ipv_sockaddr_in_t b;
    for (c = 0; c < NCLIENT; c++) { v_addr_of(&b, c); if (memcmp(&b, a, sizeof(b)) == 0) return (int)c; }
    return -1;
}

int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    unsigned k = 0;
    int i = 0, in = v_fd_isset(VSD, r), mine[NTFD];
    VRT_ASSERT(in && t == NULL && n > VSD, "the server waits for its socket");
    for (i = 0; i < NTFD; i++)
    {
        mine[i] = v_fd_isset(VTFD0 + i, r) && n > VTFD0 + i;
        VRT_ASSERT(!tfd_armed[i] || mine[i], "the server waits for every timer it armed");
    }
    cur = -1;
    v_now++;
    while (vsev_n < NEV)
    {
        k = vsev_n++;
        v_fd_zero(r);
        if (vsev[k].kind != EV_TIMER) { v_fd_set(VSD, r); cur = vsev[k].client; }
        if (vsev[k].kind != EV_RECV)
            for (i = 0; i < NTFD; i++)
                if (tfd_armed[i] && tfd_owner[i] == vsev[k].client) v_fd_set(VTFD0 + i, r);
        if (__FDS_BITS(r)[0] != 0) return 1;
    }
    vsev_done = 1;
    return v_errno_set(EBADF);
}
ssize_t v_recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *a, socklen_t *al)
{
    vrx_t p;
    int num = 0;
    VRT_ASSERT(fd == VSD, "reads its own socket");
    VRT_ASSERT(*al >= sizeof(coap_ipv_sockaddr_in_t), "room for the address");
    if (cur < 0 || vrx_n >= NRX) return v_errno_set(EAGAIN);
    if (flags & MSG_PEEK)
    {
        p = vrx_get(vrx_n);
        if (p.kind == RX_ERR) { vrx_n++; cur = -1; return v_errno_set(ECONNREFUSED); }
        if (p.kind == RX_AGAIN) { vrx_n++; cur = -1; return v_errno_set(EAGAIN); }
        num = p.kind == RX_BAD ? (int)p.rawlen : 4;
        v_addr_of((coap_ipv_sockaddr_in_t *)a, (unsigned)cur);
    }
    else
    {
        num = v_take(buf, len);
        v_addr_of((coap_ipv_sockaddr_in_t *)a, (unsigned)cur);
        cur = -1;
    }
    *al = sizeof(coap_ipv_sockaddr_in_t);
    return num;
}
ssize_t v_sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t al)
{
    int c = v_client_of((const coap_ipv_sockaddr_in_t *)a);
    unsigned q = 0, k = vtx_n;
    VRT_ASSERT(fd == VSD && al == sizeof(coap_ipv_sockaddr_in_t) && c >= 0, "writes its own socket, to one of its clients");
    for (q = 0; q < NTX; q++) if (q == k) { vtx_to[q] = (unsigned)c; vtx_ev[q] = vsev_n; }
    return v_put(buf, len);
}
int v_timerfd_create(int c, int f)
{
    int i = tfd_n;
    VRT_ASSERT(i < NTFD, "model: enough timer descriptors");
    tfd_n++;
    tfd_open[i] = 1;
    tfd_owner[i] = cur;             /* the client whose datagram the server is looking at */
    v_open_tfd++;
    return VTFD0 + i;
}
int v_timerfd_settime(int fd, int flags, const struct itimerspec *nw, struct itimerspec *o)
{
    int i = fd - VTFD0;
    VRT_ASSERT(i >= 0 && i < NTFD && tfd_open[i], "sets an open timer");
    VRT_ASSERT(nw->it_interval.tv_sec == 0 && nw->it_interval.tv_nsec == 0, "one-shot timer");
    tfd_armed[i] = nw->it_value.tv_sec != 0 || nw->it_value.tv_nsec != 0;
    if (tfd_armed[i])
    {
        VRT_ASSERT(nw->it_value.tv_nsec >= 0 && nw->it_value.tv_nsec < 1000000000 && nw->it_value.tv_nsec % 1000000 == 0, "whole milliseconds");
        VRT_ASSERT(vt_n < NTIM, "model: timer log large enough");
        vt_ms[vt_n] = nw->it_value.tv_sec * 1000 + nw->it_value.tv_nsec / 1000000;
        vt_at[vt_n] = vsev_n;
        vt_cl[vt_n] = (unsigned)tfd_owner[i];
        vt_n++;
    }
    return 0;
}
int v_fcntl(int fd, int cmd, ...) { return 0; }
static struct sockaddr_in6 v_sa;
static struct addrinfo v_ai;
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    v_ai.ai_family = hints->ai_family; v_ai.ai_socktype = SOCK_DGRAM; v_ai.ai_addr = (struct sockaddr *)&v_sa; v_ai.ai_addrlen = sizeof(v_sa);
    *res = &v_ai;
    return 0;
}
void v_freeaddrinfo(struct addrinfo *a) { (void)a; }
int v_socket(int a, int b, int c) { v_open_sd++; return VSD; }
int v_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int v_bind(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
const char *v_inet_ntop(int af, const void *a, char *d, socklen_t n) { d[0] = 'c'; d[1] = 0; return d; }
int v_snprintf(char *s, size_t n, const char *f, ...) { s[0] = 'B'; s[1] = 0; return 1; }
int v_close(int fd)
{
    if (fd == VSD) v_open_sd--;
    else
    {
        VRT_ASSERT(fd >= VTFD0 && fd < VTFD0 + NTFD && tfd_open[fd - VTFD0], "closes an open descriptor");
        v_open_tfd--; tfd_open[fd - VTFD0] = tfd_armed[fd - VTFD0] = 0;
    }
    return 0;
}
