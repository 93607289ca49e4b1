From d839be2e7a17b22e0df38966273bfba337279a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 01/40] fix: return the option structure to the small pool when
 its value cannot be allocated

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..051712c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 54f7223eb447affa7f7b2e7e2174614ed6653cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 02/40] fix: decode extended option deltas of 128 and above as
 unsigned

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 051712c..655bebb 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 8aeae1c6ba55ecd2082313a7b84df0895de8a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 03/40] fix: decode extended option lengths of 128 and above as
 unsigned

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 655bebb..15a0fc1 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 0037a8a720d5f3bba581c58f03c3001132ff477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 04/40] fix: do not read past the end of a datagram that has no
 payload marker

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 15a0fc1..16d51ea 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 00ea8585b4d8bf25eb168396a5a7dcb4c04acae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 05/40] fix: size an option by its length, not its number,
 before formatting it

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 16d51ea..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From f259ac486e4932687450ce565378eb8d045a0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 06/40] fix: reject block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..c88531c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -149,7 +149,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -158,7 +158,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -168,7 +168,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From bb39e57344295e1e1b78b96f0525cc4374d4719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 07/40] fix: decode a zero-length block option as block 0

---
 lib/src/coap_msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index c88531c..83e48cd 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
-- 
2.43.0


From 72b3ca4620ebb98d77f309d5a0c1e0992b408bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 08/40] fix: reject block options longer than three bytes

---
 lib/src/coap_msg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 83e48cd..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -125,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From b85cc7d7ddfa1fc796390c039634db532169f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 09/40] fix: release a message that fails the empty/reset
 checks after parsing

---
 lib/src/coap_msg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index a44315d..6b533e0 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -763,7 +763,12 @@ ssize_t coap_msg_parse(coap_msg_t *msg, char *buf, size_t len)
         coap_msg_destroy(msg);
         return num;
     }
-    return coap_msg_check(msg);
+    num = coap_msg_check(msg);
+    if (num < 0)
+    {
+        coap_msg_destroy(msg);
+    }
+    return num;
 }
 
 int coap_msg_set_type(coap_msg_t *msg, unsigned type)
-- 
2.43.0


From 1114227fdf40ec9a0d6a647888580f23014e12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 10/40] fix: do not deliver a request that happens to carry our
 token as the response

---
 lib/src/coap_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..8f491e4 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1252,7 +1252,8 @@ static int coap_client_listen_resp(coap_client_t *client)
  */
 static int coap_client_match_token(coap_msg_t *req, coap_msg_t *resp)
 {
-    return ((coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
+    return ((coap_msg_get_code_class(resp) != COAP_MSG_REQ)
+         && (coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
          && (memcmp(coap_msg_get_token(resp), coap_msg_get_token(req), coap_msg_get_token_len(req)) == 0));
 }
 
-- 
2.43.0


From 17835d57783a57daa5976e5953259825ee96e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:22 +0000
Subject: [PATCH 11/40] fix: release a partially copied request when a
 blockwise exchange runs out of memory

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 8f491e4..0c73239 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1691,6 +1691,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1852,6 +1853,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From b50d3c6964b53751538b5088ee4d01711b8430a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 12/40] fix: do not take the first request of a client for a
 duplicate when its message ID is 0

The request and response of a new transaction were initialised as valid
messages with message ID 0. Leave them cleared until there is a request.
---
 lib/src/coap_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..dbcc9fb 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,6 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From 6d37b404cce3b3d8e8e2c786781961ad0d3eb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 13/40] fix: answer an empty confirmable message with a reset
 instead of passing it to the handler

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index dbcc9fb..ff7c0bf 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2372,7 +2372,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From 6a86d304f5c4ce1e86c3f139f1a45b7a5d759dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 14/40] fix: stop the acknowledgement timer of the previous
 response when a new request arrives

Otherwise the timer of an unacknowledged separate response goes on to
retransmit the response to the new request, whatever its type.
---
 lib/src/coap_server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index ff7c0bf..1a4c0ab 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2390,6 +2390,15 @@ static int coap_server_exchange(coap_server_t *server)
         coap_log_info("Received non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
     }
 
+    /* stop retransmitting the previous response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
+
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
-- 
2.43.0


From b64fa11b3b54a1c8e504c1c13196275ff1e8242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 15/40] fix: keep the server running when a response cannot be
 retransmitted

A failure to send to one client made coap_server_run return.
---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 1a4c0ab..bd696eb 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1314,7 +1314,8 @@ static int coap_server_trans_handle_ack_timeout(coap_server_trans_t *trans)
         num = coap_server_trans_send(trans, &trans->resp);
         if (num < 0)
         {
-            return num;
+            /* like a lost message, the next timeout will try again */
+            coap_log_warn("Failed to retransmit to address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
         }
     }
     else if (ret == -ETIMEDOUT)
-- 
2.43.0


From f4cbe21cc0c695d944b5367cc6a616dec94a29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:06 +0000
Subject: [PATCH 16/40] fix: http_msg: reject chunk sizes that are negative,
 too large or missing

---
 proxy/common/src/http_msg.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..bbed2a7 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -36,6 +36,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include "http_msg.h"
 #include "util.h"
 
@@ -377,10 +378,10 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    size_t total_len = 0;
+    unsigned long chunk_len = 0;
+    char *end = NULL;
     int chunked = 0;
-    int ret = 0;
     int i = 0;
 
     str_len = strlen(str);
@@ -431,8 +432,8 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 }
 
                 /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
-                if (ret != 1)
+                chunk_len = strtoul(chunk_size, &end, 16);
+                if ((end == chunk_size) || (end > next - 2) || (chunk_len > INT_MAX))
                 {
                     return -EBADMSG;
                 }
@@ -440,6 +441,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 {
                     break;
                 }
+
+                /* check that the chunk-data and its end have arrived */
+                if (chunk_len + 2 > str_len - (next - str))
+                {
+                    return -EAGAIN;
+                }
                 if (i == 0)
                 {
                     total_len += chunk_len;
@@ -449,10 +456,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 next += chunk_len;
 
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
-                {
-                    return -EAGAIN;
-                }
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
-- 
2.43.0


From f674d8384fb8c6e20966112809651a6b9f05bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:35 +0000
Subject: [PATCH 17/40] fix: http_msg: do not overrun the buffer when the
 chunk-size field does not fit

---
 proxy/common/src/http_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index bbed2a7..450176e 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -668,7 +668,7 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    actual = (target < out_len) ? target : ((out_len > 0) ? out_len - 1 : 0);
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From 734615ce621b6ee2af53d4b93dfc5a113b17f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:54 +0000
Subject: [PATCH 18/40] fix: http_msg: accept null characters in a message body

---
 proxy/common/src/http_msg.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 450176e..5a7bec1 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -362,17 +362,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Length of the string, the body may contain null characters
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -384,8 +384,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int chunked = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -524,11 +522,13 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Length of the string, the body may contain null characters
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */
+static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -547,7 +547,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -570,7 +570,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From f64979fd9a57e1712ca37f7db80fd0e9df8a0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:54 +0000
Subject: [PATCH 19/40] fix: http_msg: reject a Content-Length that is not a
 decimal number

---
 proxy/common/src/http_msg.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 5a7bec1..4871aff 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -357,6 +357,32 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
     return 0;  /* should never arrive here */
 }
 
+/**
+ *  @brief Parse the value of a Content-Length header
+ *
+ *  @param[in] str String containing the value
+ *
+ *  @returns Content length or error code
+ *  @retval >=0 Content length
+ *  @retval <0 Error code
+ */
+static ssize_t http_msg_parse_content_len(const char *str)
+{
+    unsigned long len = 0;
+    char *end = NULL;
+
+    if (!isdigit((unsigned char)*str))
+    {
+        return -EBADMSG;
+    }
+    len = strtoul(str, &end, 10);
+    if ((*end != '\0') || (len > INT_MAX))
+    {
+        return -EBADMSG;
+    }
+    return len;
+}
+
 /**
  *  @brief Parse the body in a message
  *
@@ -394,7 +420,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            num = http_msg_parse_content_len(header->value);
+            if (num < 0)
+            {
+                return num;
+            }
+            content_len = num;
         }
         header = header->next;
     }
-- 
2.43.0


From dbab1cdbc0a9eb5f73d2f90eba98c4b42b8172e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:36 +0000
Subject: [PATCH 20/40] fix: uri: end the authority of a URI at the first '/'
 character

A ':' or '@' character in the path was taken for the start of the port or
the end of the userinfo, e.g. http://host/a:b was parsed with host host/a.
---
 proxy/common/src/uri.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..a7a2b1a 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -432,6 +432,14 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+
+        /* the authority is terminated by the first '/' character, */
+        /* '@' and ':' characters in the path are part of the path */
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +462,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From eb5f82ddb87ec19b4650c051b92d6593f24a1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:36 +0000
Subject: [PATCH 21/40] fix: uri: reject a percent-encoded null character

The components are strings, the rest of the component was dropped silently.
---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index a7a2b1a..05dd12a 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -266,7 +266,7 @@ static ssize_t uri_decode_str(char *dest, const char *src, size_t dest_str_len,
     while (*src != '\0')
     {
         c = uri_decode_octet(&src);
-        if (c == -1)
+        if ((c == -1) || (c == '\0'))
         {
             return -1;
         }
-- 
2.43.0


From 33bb09545218c6a44c73a7af289bbf81f7654c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:36 +0000
Subject: [PATCH 22/40] fix: uri: check the copy of the host and the port in
 uri_copy

The checks tested the scheme so a URI without a scheme could not be copied
and a failed allocation was not noticed.
---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 05dd12a..fefdab3 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -747,7 +747,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -756,7 +756,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From e181349769a9a5b0485d9a7d5b037e85663dc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:44 +0000
Subject: [PATCH 23/40] fix: http_msg: do not copy the body into an empty
 buffer

With len equal to zero, len - 1 wrapped around and the whole address space
was taken for the space left in the buffer.
---
 proxy/common/src/http_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 4871aff..57e7f7c 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -675,7 +675,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
-- 
2.43.0


From d6477ae3b8c0e0c38988ca5358197a4a41af9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 24/40] fix: cross: do not convert an unknown success code to a
 client error

The cases of the outer switch fell through, e.g. 2.12 was converted to 412.
---
 proxy/common/src/cross.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a48592a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
-- 
2.43.0


From f8d60fd8d09bf078e4848879ff9fa343e31be26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 25/40] fix: cross: keep percent characters in options when a
 URI is generated

The values of the options were percent-decoded (or refused) by the functions
that set the components of a URI, and were cut off at a null character.
---
 proxy/common/src/cross.c | 75 ++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index a48592a..8557d29 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -359,6 +359,47 @@ int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
     return 0;
 }
 
+/**
+ *  @brief Append the value of a CoAP option to a string
+ *
+ *  The components of a URI are percent-decoded when they are set
+ *  but the value of a CoAP option is not percent-encoded so '%'
+ *  characters are percent-encoded here.
+ *
+ *  @param[in,out] dest String
+ *  @param[in] dest_len Length of the buffer that contains the string
+ *  @param[in,out] num Length of the string
+ *  @param[in] op Pointer to a CoAP option structure
+ *
+ *  @returns Operation status
+ *  @retval 0 Success
+ *  @retval <0 Error
+ */
+static int cross_append_op(char *dest, size_t dest_len, size_t *num, coap_msg_op_t *op)
+{
+    unsigned i = 0;
+    size_t n = 0;
+    char c = 0;
+
+    for (i = 0; i < coap_msg_op_get_len(op); i++)
+    {
+        c = coap_msg_op_get_val(op)[i];
+        if (c == '\0')
+        {
+            return -EBADMSG;
+        }
+        n = (c == '%') ? 3 : 1;
+        if (n > dest_len - 1 - *num)  /* -1 for the terminating '\0' */
+        {
+            return -ENOSPC;
+        }
+        memcpy(dest + *num, (c == '%') ? "%25" : &c, n);
+        *num += n;
+    }
+    dest[*num] = '\0';
+    return 0;
+}
+
 int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
 {
     coap_msg_op_t *op = NULL;
@@ -383,13 +424,13 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_HOST)
         {
-            if (coap_msg_op_get_len(op) >= sizeof(tmp))
+            num = 0;
+            ret = cross_append_op(tmp, sizeof(tmp), &num, op);
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_host(&uri, tmp);
             if (ret < 0)
             {
@@ -407,13 +448,13 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_PORT)
         {
-            if (coap_msg_op_get_len(op) > sizeof(tmp) - 1)  /* -1 for the terminating '\0' */
+            num = 0;
+            ret = cross_append_op(tmp, sizeof(tmp), &num, op);
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_port(&uri, tmp);
             if (ret < 0)
             {
@@ -438,9 +479,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
                 return -ENOSPC;
             }
             tmp[num++] = '/';
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_append_op(tmp, sizeof(tmp), &num, op);
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
         }
         op = coap_msg_op_get_next(op);
     }
@@ -472,9 +516,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
             {
                 tmp[num++] = '&';
             }
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_append_op(tmp, sizeof(tmp), &num, op);
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
         }
         op = coap_msg_op_get_next(op);
     }
-- 
2.43.0


From f1c3f6b0013a1a499991d64719ffe316726513cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 26/40] fix: cross: refuse a URI that does not fit in an empty
 buffer

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 8557d29..9a40592 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -538,7 +538,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From 3eda050d3fbfb62c85e2642e3cd9605ae58a10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 27/40] fix: cross: do not pass on an entity tag with control
 characters

An Etag option is opaque, one that contained CR LF made a server able to
insert header fields and a body into the HTTP response.
---
 proxy/common/src/cross.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 9a40592..2cfa2e6 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -658,6 +658,7 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
 {
     coap_msg_op_t *op = NULL;
     unsigned val = 0;
+    unsigned i = 0;
     char tmp[CROSS_TMP_BUF_LEN] = {0};
     int ret = 0;
 
@@ -694,6 +695,18 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
             switch (coap_msg_op_get_num(op))
             {
             case COAP_MSG_ETAG:
+                /* an entity tag is opaque but a header value must not contain control characters */
+                for (i = 0; i < coap_msg_op_get_len(op); i++)
+                {
+                    if ((tmp[i] < ' ') || (tmp[i] > '~'))
+                    {
+                        break;
+                    }
+                }
+                if (i < coap_msg_op_get_len(op))
+                {
+                    break;
+                }
                 ret = http_msg_set_header(http_msg, "Etag", tmp);
                 if (ret < 0)
                 {
-- 
2.43.0


From 7570872fa6d9e9cb9f7edc0554213d064e02ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:08 +0000
Subject: [PATCH 28/40] fix: uri: do not take the octet 0xff for an error

On platforms with a signed char type it was equal to the error value.
---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index fefdab3..b3266b1 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -180,7 +180,7 @@ static int uri_decode_octet(const char **str)
     }
     else
     {
-        c = *(*str)++;
+        c = (unsigned char)*(*str)++;
     }
     return c;
 }
-- 
2.43.0


From 65370490831ada458d4dcfe4a45ea018a2692744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:59 +0000
Subject: [PATCH 29/40] fix: config: do not read past the end of a
 configuration without a final newline

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From fec4cec8f40b12b530ff0124f9154ef02455c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:59 +0000
Subject: [PATCH 30/40] fix: config: give each error code its own description

---
 proxy/common/src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..03b9bf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -37,7 +37,7 @@
 #include <ctype.h>
 #include "config.h"
 
-#define CONFIG_NUM_STR  6
+#define CONFIG_NUM_STR  5
 
 #define CONFIG_PARSER_DEF_TAB_WIDTH   4
 #define CONFIG_PARSER_INIT_STR_LEN   64
@@ -106,7 +106,6 @@ static const char *config_str[CONFIG_NUM_STR + 1] =
     "ok",
     "invalid argument",
     "out of memory",
-    "input/output error",
     "lexical error",
     "syntax error",
     "unknown"
-- 
2.43.0


From 6281bd361b2d97cb58d87c811efbe2d9996def74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:59 +0000
Subject: [PATCH 31/40] fix: data_buf: terminate an expanded buffer

---
 proxy/common/src/data_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/data_buf.c b/proxy/common/src/data_buf.c
index 8baba87..3d3b99f 100755
--- a/proxy/common/src/data_buf.c
+++ b/proxy/common/src/data_buf.c
@@ -75,7 +75,7 @@ int data_buf_expand(data_buf_t *buf)
         return -ENOMEM;
     }
     memcpy(new_data, buf->data, buf->count);
-    memset(new_data + buf->count, 0, new_size - buf->count);
+    memset(new_data + buf->count, 0, new_size + 1 - buf->count);
     free(buf->data);
     buf->data = new_data;
     buf->size = new_size;
-- 
2.43.0


From 47cb155fa87654aeb1d9b4928a798150206c0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 32/40] fix: connection: do not crash on a request URI without
 a host or a port

---
 proxy/http_coap/src/connection.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..0c5e392 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -51,6 +51,7 @@
 #define CONNECTION_DATA_BUF_MIN_SPACE  128
 #define CONNECTION_INT_BUF_LEN         16
 #define CONNECTION_BODY_LEN            8192
+#define CONNECTION_COAP_DEF_PORT       "5684"                                    /* default port for the coaps scheme */
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
 
@@ -544,6 +545,24 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if (uri_get_host(&uri) == NULL)
+    {
+        coap_log_error("[%u] <%u> %s No host in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
+    if (uri_get_port(&uri) == NULL)
+    {
+        ret = uri_set_port(&uri, CONNECTION_COAP_DEF_PORT);
+        if (ret < 0)
+        {
+            uri_destroy(&uri);
+            coap_msg_destroy(&coap_req_msg);
+            return ret;
+        }
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From 12e2e601fd6b3111f114d36766f94344710d38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 33/40] fix: connection: do not lose the last byte of a
 response that just fits in the send buffer

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 0c5e392..5fad8f5 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -291,7 +291,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))  /* space for the terminating null character */
         {
             break;
         }
-- 
2.43.0


From f50e46134f2f3965415fa43d437fe1dce313df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 34/40] fix: connection: discard a partially converted response
 before generating an error response

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 5fad8f5..c636688 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -341,6 +341,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);  /* discard a partially converted response */
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
-- 
2.43.0


From 3df6d337261c260f71dd700c96f6fb03e7964a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 35/40] fix: connection: send DELETE requests to the CoAP
 server

---
 proxy/http_coap/src/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index c636688..157533c 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -513,6 +513,14 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else
+    {
+        /* execute regular exchange */
+        coap_log_info("[%u] <%u> %s Sending request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        return coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+    }
     return 0;
 }
 
-- 
2.43.0


From 6aee0d3e2bfeac5d5930f4ebc2bf1293cf1510bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 36/40] fix: connection: do not return the body of a long GET
 request as the response

---
 proxy/http_coap/src/connection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 157533c..0cc9a3e 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -367,6 +367,11 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     ssize_t num = 0;
     int ret = 0;
 
+    if ((coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
+     || (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE))
+    {
+        con->body_end = 0;  /* do not take the body of the request for the body of the response */
+    }
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
         /* execute regular exchange */
-- 
2.43.0


From 9f4a985ae65b691d1b3d95e4fa650b76741ec7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 37/40] fix: connection: answer a request that was received
 along with the previous one

---
 proxy/http_coap/src/connection.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 0cc9a3e..d31b309 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -199,6 +199,20 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     int ret = 0;
     int sd = 0;
 
+    if (data_buf_get_count(&con->recv_buf) > 0)
+    {
+        /* the request may have been received along with the previous one */
+        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+        if (num > 0)
+        {
+            data_buf_consume(&con->recv_buf, num);
+            return 0;  /* success */
+        }
+        else if (num != -EAGAIN)
+        {
+            return num;
+        }
+    }
     tv.tv_sec = tls_sock_get_timeout(con->sock);
     tv.tv_usec = 0;
     sd = tls_sock_get_sd(con->sock);
-- 
2.43.0


From f732ae4b0dedff6e95119e63a6a6f5e263b8f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 38/40] fix: connection: read the rest of a TLS record before
 waiting for the socket

---
 proxy/http_coap/src/connection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index d31b309..7acaedb 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -221,7 +221,11 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
         FD_ZERO(&readfds);
         FD_SET(sd, &readfds);
         errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+        ret = 1;
+        if (gnutls_record_check_pending(tls_sock_get_session(con->sock)) == 0)  /* no data left from the last record */
+        {
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+        }
         if (ret == 0)
         {
             coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-- 
2.43.0


From 24e1363c35ac6b69817075fd96b7059394d55f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:43 +0000
Subject: [PATCH 39/40] fix: connection: delimit a response without a body

---
 proxy/http_coap/src/connection.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 7acaedb..6305672 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -372,6 +372,27 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     return 0;
 }
 
+/*  return: { 0, success
+ *          {<0, error
+ */
+static int connection_delimit_resp(connection_t *con, http_msg_t *msg)
+{
+    int ret = 0;
+
+    if ((http_msg_get_body_len(msg) > 0)
+     || (strcmp(http_msg_get_start(msg, 1), "304") == 0))  /* a 304 response never has a body */
+    {
+        return 0;
+    }
+    ret = http_msg_set_header(msg, "Content-Length", "0");
+    if (ret < 0)
+    {
+        coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                       con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+    }
+    return ret;
+}
+
 /*  return: { 0, success
  *          {<0, error
  */
@@ -693,6 +714,13 @@ static int __connection_exchange(connection_t *con, http_msg_t *req_msg, http_ms
         return ret;
     }
 
+    /* the connection stays open so the client must be told where the response ends */
+    ret = connection_delimit_resp(con, resp_msg);
+    if (ret < 0)
+    {
+        return ret;
+    }
+
     /* send response */
     ret = connection_send(con, resp_msg);
     if (ret != 0)  /* this must be if (ret != 0) and not if (ret < 0) */
-- 
2.43.0


From 98ca427aa87d20785f545f20773a1558acc96113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:51 +0000
Subject: [PATCH 40/40] fix: tls: replace the data of a session that is already
 in the server cache

---
 proxy/common/src/tls.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 19ec24c..617d6ea 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -312,19 +312,34 @@ static void tls_server_cache_destroy(tls_server_cache_t *cache)
 
 static int tls_server_cache_set(tls_server_cache_t *cache, gnutls_datum_t key, gnutls_datum_t data)
 {
+    unsigned i = 0;
+    int found = 0;
+
     if ((key.size > TLS_SERVER_MAX_SESSION_ID_SIZE) || (data.size > TLS_SERVER_MAX_SESSION_DATA_SIZE))
     {
         return SOCK_TLS_CACHE_ERROR;
     }
 
-    memcpy(cache->element[cache->index].session_id, key.data, key.size);
-    cache->element[cache->index].session_id_size = key.size;
+    for (i = 0; i < cache->size; i++)
+    {
+        if ((key.size == cache->element[i].session_id_size)
+         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
+        {
+            found = 1;
+            break;
+        }
+    }
+    if (!found)
+    {
+        i = cache->index++;
+        cache->index %= cache->size;
+    }
 
-    memcpy(cache->element[cache->index].session_data, data.data, data.size);
-    cache->element[cache->index].session_data_size = data.size;
+    memcpy(cache->element[i].session_id, key.data, key.size);
+    cache->element[i].session_id_size = key.size;
 
-    cache->index++;
-    cache->index %= cache->size;
+    memcpy(cache->element[i].session_data, data.data, data.size);
+    cache->element[i].session_data_size = data.size;
 
     return SOCK_OK;
 }
-- 
2.43.0

