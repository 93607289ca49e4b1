/* coap_server.c from /repo over stand-ins for the system calls it makes */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/types.h>
#include <netinet/in.h>
#include "vnet.h"
#include "coap_server.h"
#ifdef NTRANS
/* the code under test uses the first NTRANS of the table's entries */
#undef COAP_SERVER_NUM_TRANS
#define COAP_SERVER_NUM_TRANS NTRANS
#endif
int v_snprintf(char *s, size_t n, const char *f, ...);
const char *v_inet_ntop(int af, const void *a, char *d, socklen_t n);
int v_setsockopt(int fd, int l, int o, const void *v, socklen_t n);
#define rand v_jitter
#define srand(x) ((void)(x))
#define time(x) v_time()
#define select v_select
#define recvfrom v_recvfrom
#define sendto v_sendto
#define timerfd_create v_timerfd_create
#define timerfd_settime v_timerfd_settime
#define fcntl v_fcntl
#define getaddrinfo v_getaddrinfo
#define freeaddrinfo v_freeaddrinfo
#define socket v_socket
#define bind v_bind
#define setsockopt v_setsockopt
#define inet_ntop v_inet_ntop
#define close v_close
#define snprintf v_snprintf
#define strerror(x) "error"
#undef FD_ZERO
#undef FD_SET
#undef FD_ISSET
#undef FD_CLR
#define FD_ZERO(s) v_fd_zero(s)
#define FD_SET(fd, s) v_fd_set((fd), (s))
#define FD_CLR(fd, s) v_fd_clr((fd), (s))
#define FD_ISSET(fd, s) v_fd_isset((fd), (s))
#ifdef VRT_CBMC
/* clearing or copying a whole structure as one assignment (the same effect, without a byte-wise update of the table) */
static inline void *v_memset(void *p, int c, size_t n)
{
    if (c == 0 && n == sizeof(coap_server_trans_t)) { static const coap_server_trans_t z; *(coap_server_trans_t *)p = z; return p; }
    if (c == 0 && n == sizeof(coap_server_t)) { static const coap_server_t z; *(coap_server_t *)p = z; return p; }
    return memset(p, c, n);
}
static inline void *v_memcpy(void *d, const void *s, size_t n)
{
    if (n == sizeof(coap_ipv_sockaddr_in_t)) { *(coap_ipv_sockaddr_in_t *)d = *(const coap_ipv_sockaddr_in_t *)s; return d; }
    return memcpy(d, s, n);
}
#define memset v_memset
#define memcpy v_memcpy
#endif
#include "coap_server.c"
