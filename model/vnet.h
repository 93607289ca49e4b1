#ifndef VNET_H
#define VNET_H
#include <stddef.h>
#include <sys/types.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netdb.h>
#include <time.h>
#include "vrt.h"
int v_rand(void);
int v_jitter(void);                 /* rand() as used for timeouts; -DJITTER=n pins it */
long v_time(void);
int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
ssize_t v_recv(int fd, void *buf, size_t len, int flags);
ssize_t v_send(int fd, const void *buf, size_t len, int flags);
ssize_t v_recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *a, socklen_t *al);
ssize_t v_sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t al);
int v_timerfd_create(int c, int f);
struct itimerspec;
int v_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o);
int v_fcntl(int fd, int cmd, ...);
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res);
void v_freeaddrinfo(struct addrinfo *a);
int v_socket(int a, int b, int c);
int v_connect(int fd, const struct sockaddr *a, socklen_t l);
int v_bind(int fd, const struct sockaddr *a, socklen_t l);
int v_close(int fd);
ssize_t v_read(int fd, void *buf, size_t len);
/* descriptors of the model are below 64, so one word of the set suffices */
static inline void v_fd_zero(fd_set *s) { __FDS_BITS(s)[0] = 0; }
static inline void v_fd_set(int fd, fd_set *s) { VRT_ASSERT(fd >= 0 && fd < 64, "descriptor in range"); __FDS_BITS(s)[0] |= 1L << (fd & 63); }
static inline void v_fd_clr(int fd, fd_set *s) { VRT_ASSERT(fd >= 0 && fd < 64, "descriptor in range"); __FDS_BITS(s)[0] &= ~(1L << (fd & 63)); }
static inline int v_fd_isset(int fd, fd_set *s) { VRT_ASSERT(fd >= 0 && fd < 64, "descriptor in range"); return (__FDS_BITS(s)[0] >> (fd & 63)) & 1; }
#endif
