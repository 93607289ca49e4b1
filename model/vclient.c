/* network and clock of one client: descriptor 5 is the socket, 6 the timer */
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include "vnet.h"
#include "vclient.h"
#include "msgio.h"
unsigned vev[NEV], vev_n;
int vev_done;
unsigned vt_n;
long vt_ms[NTIM];
unsigned vt_at[NTIM];
int v_open_sd, v_open_tfd;
#ifdef RANDC
int v_rand(void) { return RANDC; }
#else
int v_rand(void) { int r = nd_int(); VRT_ASSUME(r >= 0); return r; }
#endif
#ifdef JITTER
int v_jitter(void) { return JITTER; }
#else
int v_jitter(void) { return v_rand(); }
#endif
long v_time(void) { return 0; }

int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    unsigned k = vev_n;
    int sd = v_fd_isset(VSD, r), tf = v_fd_isset(VTFD, r);
    VRT_ASSERT(n > VTFD && sd && tf && t == NULL, "the client waits for both its socket and its timer");
    if (k >= NEV) { vev_done = 1; return v_errno_set(EINTR); }
    vev_n++;
    v_fd_zero(r);
    if (vev[k] != EV_TIMER) v_fd_set(VSD, r);
    if (vev[k] != EV_SOCK) v_fd_set(VTFD, r);
    return 1;
}
ssize_t v_recv(int fd, void *buf, size_t len, int flags) { VRT_ASSERT(fd == VSD, "reads its own socket"); return v_take(buf, len); }
ssize_t v_send(int fd, const void *buf, size_t len, int flags) { VRT_ASSERT(fd == VSD, "writes its own socket"); return v_put(buf, len); }
int v_timerfd_create(int c, int f) { v_open_tfd++; return VTFD; }
int v_timerfd_settime(int fd, int flags, const struct itimerspec *nw, struct itimerspec *o)
{
    VRT_ASSERT(fd == VTFD, "sets its own timer");
    VRT_ASSERT(nw->it_interval.tv_sec == 0 && nw->it_interval.tv_nsec == 0, "one-shot timer");
    VRT_ASSERT(nw->it_value.tv_nsec >= 0 && nw->it_value.tv_nsec < 1000000000 && nw->it_value.tv_nsec % 1000000 == 0, "whole milliseconds");
    VRT_ASSERT(vt_n < NTIM, "model: timer log large enough");
    if (vt_n < NTIM)
    {
        vt_ms[vt_n] = nw->it_value.tv_sec * 1000 + nw->it_value.tv_nsec / 1000000;
        vt_at[vt_n] = vev_n;
        vt_n++;
    }
    return 0;
}
int v_fcntl(int fd, int cmd, ...) { return 0; }
static struct sockaddr_in6 v_sa;
static struct addrinfo v_ai;
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    v_ai.ai_family = hints->ai_family; v_ai.ai_socktype = SOCK_DGRAM; v_ai.ai_addr = (struct sockaddr *)&v_sa; v_ai.ai_addrlen = 16;
    *res = &v_ai;
    return 0;
}
void v_freeaddrinfo(struct addrinfo *a) { (void)a; }
int v_socket(int a, int b, int c) { v_open_sd++; return VSD; }
int v_connect(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
int v_close(int fd) { if (fd == VSD) v_open_sd--; if (fd == VTFD) v_open_tfd--; return 0; }
