#ifndef VSERVER_H
#define VSERVER_H
#include "coap_ipv.h"
#ifndef NTIM
#define NTIM 8
#endif
#define VSD 5
#define VTFD0 10                    /* first timer descriptor */
#define NTFD 6                      /* timers created at most */
/* events: what select reports, in order; a timer event is skipped while that client's timer is not armed */
enum { EV_RECV, EV_TIMER, EV_BOTH };
typedef struct { int kind, client; } vsev_t;
extern const vsev_t vsev[NEV];
extern unsigned vsev_n;
extern int vsev_done;
extern unsigned vtx_to[];           /* client each message was sent to */
extern unsigned vtx_ev[];           /* events consumed when it was sent */
extern unsigned vt_n, vt_cl[NTIM], vt_at[NTIM]; /* timers set: by which client's transaction, after how many events */
extern long vt_ms[NTIM];
extern int v_open_sd, v_open_tfd;
extern long v_now;
int v_client_of(const coap_ipv_sockaddr_in_t *a);
void v_addr_of(coap_ipv_sockaddr_in_t *a, unsigned client);
#endif
