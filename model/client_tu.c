/* coap_client.c from /repo over stand-ins for the system calls it makes */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/types.h>
#include <netinet/in.h>
#include "vnet.h"
#define rand v_jitter
#define srand(x) ((void)(x))
#define time(x) v_time()
#define select v_select
#define recv v_recv
#define send v_send
#define timerfd_create v_timerfd_create
#define timerfd_settime v_timerfd_settime
#define fcntl v_fcntl
#define getaddrinfo v_getaddrinfo
#define freeaddrinfo v_freeaddrinfo
#define socket v_socket
#define connect v_connect
#define close v_close
#undef FD_ZERO
#undef FD_SET
#undef FD_ISSET
#undef FD_CLR
#define FD_ZERO(s) v_fd_zero(s)
#define FD_SET(fd, s) v_fd_set((fd), (s))
#define FD_CLR(fd, s) v_fd_clr((fd), (s))
#define FD_ISSET(fd, s) v_fd_isset((fd), (s))
#include "coap_client.c"
