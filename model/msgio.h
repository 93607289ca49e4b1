/* msgio: message-level network model for the client and server checks.
 *
 * coap_msg_parse/coap_msg_format (decided byte for byte by C01/C02) are replaced by their contracts: parse delivers any
 * well-formed message (or a failure), format records the message.  Every other function of coap_msg.c is the real one.
 */
#ifndef MSGIO_H
#define MSGIO_H
#include "vrt.h"
#include "coap_msg.h"
#ifndef PMAX
#define PMAX 2                      /* payload bytes kept */
#endif
#ifndef NRX
#define NRX 2                       /* datagrams delivered at most */
#endif
#ifndef NTX
#define NTX 8                       /* messages sent at most */
#endif
typedef struct {
    unsigned type, cls, det, id, tkl;
    char token[8];
    unsigned has_op, op;            /* one further option of any number, empty value */
    unsigned has_b1, b1;            /* Block1 value as an integer, 3 bytes */
    unsigned has_b2, b2;
#ifdef PATHS
    unsigned has_path;              /* one URI-Path option of one character */
    char path;
#endif
    unsigned plen;
    char pay[PMAX];
} vmsg_t;
enum { RX_MSG, RX_BAD, RX_AGAIN, RX_ERR };
typedef struct { unsigned kind, rawlen; char raw[4]; vmsg_t m; } vrx_t;
extern vrx_t vrx[NRX];              /* what arrives, in order */
extern unsigned vrx_n;              /* datagrams consumed */
extern vmsg_t vtx[NTX];             /* what was sent, in order */
extern unsigned vtx_n;
extern int vsend_may_fail, vsend_failed;
extern unsigned vsend_n, vsend_fail_at; /* the send with this number fails (0: none) */
extern int vrx_match;               /* every datagram is a response matching the last request */
extern vmsg_t vfmt;                 /* last formatted message */
extern unsigned char vfmt_serial;
void vmsg_draw(vmsg_t *m);          /* any message coap_msg_parse can produce */
void vmsg_wf(const vmsg_t *m);      /* assume what coap_msg_parse guarantees about a message it accepts */
void vrx_draw(vrx_t *r);
vrx_t vrx_get(unsigned k);
vmsg_t vtx_get(unsigned k);
int v_take(char *buf, size_t len);  /* next datagram into buf: length, or -1 with errno */
int v_put(const char *buf, size_t len); /* buffer handed to the network */
int v_errno_set(int e);
int vmsg_eq(const vmsg_t *v, coap_msg_t *m);
void vmsg_snap(vmsg_t *v, coap_msg_t *m);
#endif
