/* logging is not observable behaviour */
void coap_log_error(const char *msg, ...) { (void)msg; }
void coap_log_warn(const char *msg, ...) { (void)msg; }
void coap_log_notice(const char *msg, ...) { (void)msg; }
void coap_log_info(const char *msg, ...) { (void)msg; }
void coap_log_debug(const char *msg, ...) { (void)msg; }
