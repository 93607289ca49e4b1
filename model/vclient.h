#ifndef VCLIENT_H
#define VCLIENT_H
#ifndef NEV
#define NEV 2
#endif
#ifndef NTIM
#define NTIM 8
#endif
#define VSD 5
#define VTFD 6
enum { EV_SOCK, EV_TIMER, EV_BOTH };
extern unsigned vev[NEV], vev_n;    /* what select reports, in order */
extern int vev_done;                /* the client asked for more events than the bound: no verdict about its return */
extern unsigned vt_n;               /* timers set */
extern long vt_ms[NTIM];
extern unsigned vt_at[NTIM];        /* after how many events each timer was set */
extern int v_open_sd, v_open_tfd;
#endif
