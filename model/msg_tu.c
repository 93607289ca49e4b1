/* coap_msg.c from /repo with parse and format renamed (msgio.c supplies their contracts) and a symbolic random source */
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vrt.h"
#define coap_msg_parse real_coap_msg_parse
#define coap_msg_format real_coap_msg_format
int v_rand(void);
long v_time(void);
#define rand v_rand
#define srand(x) ((void)(x))
#define time(x) v_time()
#include "coap_msg.c"
