/* msg_setters: field setters accept exactly the encodable range and leave the message unchanged otherwise;
 * type/message-ID extraction from any datagram; critical/unsafe/recognized classification of every option number;
 * payload replacement.
 */
#include <stdlib.h>
#include <errno.h>
#include "vrt.h"
#include "vmem.h"
#include "coap_msg.h"

void harness(void)
{
    coap_msg_t msg;
    VRT_BYTES(tok, 12);
    VRT_BYTES(d, 6);
    unsigned type = nd_u32(), cls = nd_u32(), det = nd_u32(), id = nd_u32(), tkl = nd_range(0, 12), n = nd_range(0, 6), j = 0;
    unsigned t2 = 77, i2 = 88, p1 = nd_range(0, 12), p2 = nd_range(0, 12);
    int ret = 0;

    coap_msg_create(&msg);
    VRT_ASSERT(coap_msg_get_ver(&msg) == 1 && coap_msg_get_type(&msg) == 0 && coap_msg_get_code_class(&msg) == 0 && coap_msg_get_code_detail(&msg) == 0
            && coap_msg_get_msg_id(&msg) == 0 && coap_msg_get_token_len(&msg) == 0 && coap_msg_get_first_op(&msg) == NULL
            && coap_msg_get_payload(&msg) == NULL && coap_msg_get_payload_len(&msg) == 0, "a new message is empty");
    ret = coap_msg_set_type(&msg, type);
    VRT_ASSERT((ret == 0) == (type <= 3) && (unsigned)coap_msg_get_type(&msg) == (type <= 3 ? type : 0), "type accepted iff encodable");
    ret = coap_msg_set_code(&msg, cls, det);
    VRT_ASSERT((ret == 0) == (cls <= 7 && det <= 31), "code accepted iff encodable");
    VRT_ASSERT(coap_msg_get_code_class(&msg) == (ret == 0 ? cls : 0) && coap_msg_get_code_detail(&msg) == (ret == 0 ? det : 0), "code stored iff accepted");
    ret = coap_msg_set_msg_id(&msg, id);
    VRT_ASSERT((ret == 0) == (id <= 65535) && coap_msg_get_msg_id(&msg) == (id <= 65535 ? id : 0), "message ID accepted iff encodable");
    ret = coap_msg_set_token(&msg, tok, tkl);
    VRT_ASSERT((ret == 0) == (tkl <= 8) && coap_msg_get_token_len(&msg) == (tkl <= 8 ? tkl : 0), "token accepted iff encodable");
    for (j = 0; j < 8; j++) if (tkl <= 8 && j < tkl) VRT_ASSERT(coap_msg_get_token(&msg)[j] == tok[j], "token stored");
    ret = coap_msg_set_payload(&msg, tok, p1);
    VRT_ASSERT(ret == 0 && coap_msg_get_payload_len(&msg) == p1, "payload set");
    ret = coap_msg_set_payload(&msg, tok, p2);
    VRT_ASSERT(ret == 0 && coap_msg_get_payload_len(&msg) == p2 && vmem_medium_live == (p2 ? 1 : 0), "payload replaced, old one released");
    for (j = 0; j < 12; j++) if (j < p2) VRT_ASSERT(coap_msg_get_payload(&msg)[j] == tok[j], "payload stored");
    if (nd_bool())
    {
        coap_msg_clear_payload(&msg);
        VRT_ASSERT(coap_msg_get_payload_len(&msg) == 0 && coap_msg_get_payload(&msg) == NULL && vmem_medium_live == 0, "payload cleared");
    }
    coap_msg_reset(&msg);
    VRT_ASSERT(coap_msg_get_ver(&msg) == 1 && coap_msg_get_payload_len(&msg) == 0 && coap_msg_get_token_len(&msg) == 0 && vmem_medium_live == 0, "reset empties the message");

    ret = coap_msg_parse_type_msg_id(d + (6 - n), n, &t2, &i2);
    VRT_ASSERT((ret == 0) == (n >= 4), "type and message ID extracted iff the header is complete");
    if (n >= 4)
    {
        unsigned char *u = (unsigned char *)d + (6 - n);
        VRT_ASSERT(t2 == (unsigned)((u[0] >> 4) & 3) && i2 == (unsigned)(u[2] * 256 + u[3]), "extracted type and message ID");
        VRT_WITNESS_POINT("extracted");
    }
    coap_msg_destroy(&msg);
}
