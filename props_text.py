BND = 'Exhaustive within the stated bounds (see DESIGN.md and the evidence file); trusts CBMC, the SAT solver and the listed environment models. '

p('C01', 'CoAP datagram parsing is exact and memory-safe for every byte string',
  'For every byte string, decoding a datagram either yields exactly the message RFC 7252 assigns to it (version, type, token, code, ID, ordered options, payload) or fails. It never reads outside the given bytes, writes outside its buffers, loops forever, or keeps pool blocks after a failed decode.',
  ['inputs'], 'every datagram content and length',
  'The unit tests decode a few dozen fixed datagrams; extended deltas/lengths, truncation at every position and lengths with the top bit set are mostly not among them.',
  ['lib/src/coap_msg.c'], [('header, token, option and payload decoding', 'lib/src/coap_msg.c coap_msg_parse and its helpers'), ('release on failure', 'lib/src/coap_msg.c coap_msg_parse')],
  BND + 'Every datagram of 1..9 bytes, every 12-byte datagram with a set of pinned first bytes, 155/290-byte datagrams with pinned first option byte (extended delta and length forms).')
p('C02', 'Formatting emits exactly the message and never overruns the buffer',
  'For every message and every buffer length, encoding either writes exactly the canonical RFC 7252 byte sequence of that message and returns its length, or reports lack of space. No byte beyond the given buffer length is ever written, and decoding the output gives the message back.',
  ['inputs'], 'every message contents and buffer length',
  'Tests format a handful of messages into ample buffers; the boundary lengths (12/13/14, 268/269) and exact-fit buffers are unsampled.',
  ['lib/src/coap_msg.c'], [('option/token/payload encoding with space accounting', 'lib/src/coap_msg.c coap_msg_format and its helpers')],
  BND + 'Up to 2 options with short symbolic values and every buffer length; one option of any number up to 65535 and value length 0..40, 125..144, 255..290.')
p('C03', 'Message building, copying and path rendering preserve the message',
  'Setters accept exactly the values the protocol allows; options added in any order are kept sorted by number with equal numbers in insertion order and intact values; copying gives an equal, independent message; rendering the URI path gives "/seg/seg..." truncated and terminated within the buffer.  Critical and unsafe option checks report exactly the unrecognised ones.',
  ['inputs', 'histories'], 'every option number, value, insertion order, field value and buffer length',
  'Tests add options in a few fixed orders with fixed numbers; ordering and identity are universal statements.',
  ['lib/src/coap_msg.c'], [('sorted option list', 'lib/src/coap_msg.c coap_msg_op_list_add'), ('copy', 'lib/src/coap_msg.c coap_msg_copy'), ('setters', 'lib/src/coap_msg.c coap_msg_set_*')],
  BND + 'Up to 3 options (4 thorough), values of a few bytes.')
p('C04', 'Block option values encode and decode exactly',
  'A Block1/Block2 value is produced exactly for sizes 16..1024 (powers of two) and block numbers that fit the value length, decodes back to the same number, more flag and size, and values that are too long or use the reserved size are rejected.  Looking a block option up in a message finds that option and no other.',
  ['inputs'], 'every number, flag, size and value',
  'Tests use a few numbers per length; the limits of each length and reserved sizes are universal.',
  ['lib/src/coap_msg.c'], [('block value coding', 'lib/src/coap_msg.c coap_msg_op_parse_block_val / coap_msg_op_format_block_val')],
  BND + 'All 32-bit numbers, flags and sizes; value lengths 0..6.')
p('C05', 'The pool allocator never hands out a live, foreign or overlapping block',
  'For every occupancy of a pool and every request, allocation succeeds exactly when a block is free and the request fits, and returns a block inside the pool disjoint from every live block; a returned block becomes allocatable again, and returning an address that is not a block of the pool changes nothing.',
  ['inputs', 'histories'], 'every occupancy and operation',
  'Tests allocate and free in order; occupancies are exponential.',
  ['lib/src/coap_mem.c'], [('active bitset', 'lib/src/coap_mem.c coap_mem_alloc / coap_mem_free')],
  BND + 'Pools of 8 and 16 blocks, all occupancies (reached through the API), then any two operations and a drain.')
p('C06', 'Pool exhaustion never leaks, corrupts or misreports a message',
  'Whichever allocations fail while a message is decoded, built or copied, the failure is reported, the message stays well formed and usable, and after it is destroyed every block is back in the pool it came from.',
  ['inputs', 'fault_sequences'], 'every subset of failing allocations',
  'Tests never exhaust the pools; a leak per malformed or oversized datagram stops a long-running server.',
  ['lib/src/coap_msg.c', 'lib/src/coap_mem.c'], [('release on error paths', 'lib/src/coap_msg.c coap_msg_op_new, coap_msg_parse, coap_msg_set_payload')],
  BND + 'Any subset of pool allocations fails; up to 2 options built, datagrams up to 10 bytes decoded.')
p('C07', 'A client exchange returns only the response to its own request',
  'For every sequence of incoming datagrams, a client exchange succeeds only with a response that carries the token of the request and (when piggybacked) its message ID; anything else is ignored or rejected with a reset, a reset or malformed answer to the request ends the exchange with an error, confirmable responses are acknowledged exactly once per copy with their own ID, and responses with unrecognised critical options are refused.',
  ['inputs', 'histories', 'schedules'], 'every sequence of incoming messages and timer events',
  'Tests replay a few fixed dialogues with a cooperative server; mismatched, duplicated, reordered, malformed or hostile answers are unsampled.',
  ['lib/src/coap_client.c'], [('matching of ID and token', 'lib/src/coap_client.c coap_client_match_token and the exchange functions'), ('acknowledge/reject', 'lib/src/coap_client.c coap_client_handle_*')],
  BND + 'Up to 3 datagrams with arbitrary headers, tokens and short payloads interleaved with timer events; no DTLS.')
p('C08', 'A confirmable request is retransmitted on schedule and then reported as timed out',
  'An unanswered confirmable request is sent at most 5 times, byte-identical, the first timeout between 2 and 3 seconds and each following one double the previous, after which the exchange reports a timeout; no retransmission follows an acknowledgement; a non-confirmable request is sent once and times out.',
  ['schedules', 'inputs', 'fault_sequences'], 'every order of timer expiry, arrival and send failure',
  'Real-time tests cannot wait for all timeouts nor place an arrival at each point of the schedule.',
  ['lib/src/coap_client.c'], [('timer initialisation, doubling and retransmission count', 'lib/src/coap_client.c coap_client_init_ack_timeout, coap_client_double_timeout, coap_client_handle_ack_timeout')],
  BND + 'All 6 timer events of a full schedule; symbolic jitter over every rand() value for the first timeouts (deeper symbolic jitter in the thorough tier).')
p('C09', 'A client blockwise transfer sends and reassembles exactly the body',
  'In a library-level blockwise GET/PUT/POST, the request blocks are consecutive slices that together are exactly the body, each described by its Block1 option; response payloads are accepted only if their Block2 option continues the transfer and are placed at their offset; the result is exactly the number of bytes received, and nothing is written outside the body buffer whatever the server answers.',
  ['inputs', 'histories'], 'every response sequence, block size negotiation and body content',
  'Tests transfer a few fixed bodies with a cooperative server.',
  ['lib/src/coap_client.c'], [('block iteration', 'lib/src/coap_client.c coap_client_exchange_blockwise1, coap_client_exchange_blockwise2')],
  BND + 'Up to 4 exchanges, bodies up to 70 bytes, block sizes 16 and 32; payload lengths pinned per configuration, all contents and the last response symbolic.')
p('C10', 'The server executes each request once and answers exactly the client that sent it',
  'For every sequence of datagrams from any clients, each new request reaches the handler exactly once and its response goes to the sender with the request\'s token and, for piggybacked responses, its message ID; a repeated copy of the latest request is answered from the stored response without calling the handler again; messages that are no requests and malformed confirmable datagrams are reset, unrecognised critical options give 4.02; one client\'s traffic or failures never affect another\'s, and the least recently used transaction makes room when the table is full. Nothing a client sends stops the server.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of datagrams, senders and failures',
  'Tests run fixed dialogues of one client at a time; duplicates, interleavings, table exhaustion, unusual IDs and stray messages are unsampled.',
  ['lib/src/coap_server.c'], [('transaction lookup, deduplication, response construction', 'lib/src/coap_server.c coap_server_exchange'), ('eviction', 'lib/src/coap_server.c coap_server_find_oldest_trans'), ('rejection', 'lib/src/coap_server.c coap_server_trans_reject, coap_server_trans_handle_format_error')],
  BND + 'Up to 6 events, 3 clients; all but the last datagram with pinned type and ID (token, payload, answers symbolic), the last arbitrary; no DTLS.')
p('C11', 'Separate responses are acknowledged, retransmitted on schedule and given up cleanly',
  'A confirmable request on a separate-response path is acknowledged at once and answered by a confirmable response with a new ID, which is retransmitted unchanged after 2-3 s and then double intervals, at most 4 times, until that client acknowledges or resets it; after that, or once a newer request supersedes it, it is never sent again; duplicates are acknowledged again only; a failed transmission neither stops the server nor affects other clients; after the last timeout all resources are released.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of requests, acknowledgements, timer expiries and send failures',
  'The schedule takes over a minute of real time and depends on when acknowledgements and new requests arrive relative to it.',
  ['lib/src/coap_server.c'], [('ack timer', 'lib/src/coap_server.c coap_server_trans_handle_ack_timeout, coap_server_trans_update_ack_timer, coap_server_listen'), ('separate path list', 'lib/src/coap_server.c coap_server_get_resp_type')],
  BND + 'Event sequences of up to 6 events with 2 clients, a failing send at each position, arbitrary final messages, arbitrary jitter for the first timeouts; no DTLS.')
p('C12', 'A server-side blockwise transfer delivers exactly the body in both directions',
  'In a library-level blockwise transfer the application receives exactly the concatenation of the accepted request payloads, once, and the client receives exactly the consecutive slices of the response body, each described by its block options, with sizes no larger than either side asked for; requests that do not continue the transfer (wrong number, method, path, reserved size, missing payload, too long) are refused with the matching 4.xx code and end it, and nothing is read or written outside the body buffer.',
  ['inputs', 'histories'], 'every request sequence, block option value and payload',
  'Tests transfer fixed bodies with a cooperative client.',
  ['lib/src/coap_server.c'], [('block iteration and continuity checks', 'lib/src/coap_server.c coap_server_trans_handle_next_block, coap_server_trans_handle_blockwise')],
  BND + 'Up to 3 requests, block sizes 16 and 32, body buffer of 45 bytes; payload lengths and all but the last request\'s block options pinned, contents and the last request\'s block options symbolic.')
SBND = 'All paths of the compiled code within the stated bounds; string functions of the C library are modelled; outside the bounds nothing is claimed. '
p('C13', 'HTTP messages received by the proxy are parsed exactly',
  'For every sequence of received bytes, the HTTP parser consumes exactly one message or reports that it is incomplete or malformed: the start line is split at its first two spaces, each header field (including folded lines) is kept in order with white space trimmed, the body is the Content-Length bytes or the concatenated chunks (trailers become header fields), null bytes in the body included; a bad Content-Length or chunk size is refused. Every proper prefix of a message is reported as incomplete. Nothing outside the received bytes is read, and nothing leaks, also when memory runs out.',
  ['inputs', 'fault_sequences'], 'every received byte sequence within the bounds and every failing allocation',
  'Tests parse a few dozen fixed well-formed messages; sizes, separators, truncation points and malformed lengths are unsampled.',
  ['proxy/common/src/http_msg.c'], [('start line, header and body parsing', 'proxy/common/src/http_msg.c http_msg_parse, http_msg_parse_start, http_msg_parse_headers, http_msg_parse_body')],
  SBND + 'Messages of up to 60 bytes in which up to 12 bytes are symbolic: every window of 3 bytes of the start line, header fields and folded fields, sizes and separators of bodies, every proper prefix. Inputs for which HTTP fixes no meaning (null bytes in the head, signs or prefixes in a chunk size) are checked for memory safety only.', sym=True)
p('C14', 'HTTP messages the proxy generates are complete, bounded and read back as the same message',
  'Generating an HTTP message, chunk, last chunk, trailer or blank line returns the length of the full text; when that is less than the length of the buffer the buffer holds exactly the text and a terminator, otherwise a terminated prefix, and nothing outside the buffer (which may be empty) is written. Parsing a generated message returns the same start line, header fields, trailers and body, binary bytes included. Setting parts of a message when memory runs out reports it and leaks nothing.',
  ['inputs', 'fault_sequences'], 'every content and every length of the buffer',
  'Tests generate a few messages into large buffers; truncation at every boundary is unsampled.',
  ['proxy/common/src/http_msg.c', 'proxy/common/src/util.c'], [('generation', 'proxy/common/src/http_msg.c http_msg_generate, http_msg_generate_chunk, http_msg_generate_last_chunk, http_msg_generate_trailer, http_msg_generate_blank_line'), ('bounded copy', 'proxy/common/src/util.c util_strncpy, util_strncat')],
  SBND + 'Texts of up to 3 symbolic bytes per field, 2 header fields, bodies and chunks of up to 20 symbolic bytes, buffers of every length from 0 to beyond the text.', sym=True)
p('C15', 'URIs are split, decoded, copied and generated without changing their meaning',
  'Parsing a URI yields exactly its scheme, userinfo, host (without brackets for IPv6), port, path, query and fragment as delimited by RFC 3986, percent-decoded; an invalid percent-encoding or an encoded null byte is refused and leaves nothing behind. Setting a component stores its decoded text, replacing the old one; a copy has equal strings of its own. Generating a URI percent-encodes what each component must not contain, returns the full length, never writes outside the buffer, and the result parses back to the same components. Out of memory is reported and leaks nothing.',
  ['inputs', 'fault_sequences'], 'every text of the components, every length of the buffer and every failing allocation',
  'Tests parse and generate fixed URIs; delimiters inside other components, encodings and buffer limits are unsampled.',
  ['proxy/common/src/uri.c'], [('splitting', 'proxy/common/src/uri.c uri_parse, uri_parse_scheme, uri_parse_hier_part, uri_parse_query, uri_parse_fragment'), ('percent-coding', 'proxy/common/src/uri.c uri_decode_str, uri_encode_str'), ('generation', 'proxy/common/src/uri.c uri_generate')],
  SBND + 'URIs of up to 25 bytes with every window of 3 bytes symbolic, arbitrary percent-encodings in each component, buffers of every length. References without a scheme, several @ or : in the authority and misplaced brackets are checked for memory safety only.', sym=True)
p('C16', 'HTTP requests and CoAP responses are translated faithfully in both directions',
  'An HTTP request becomes a confirmable CoAP request with the matching method, the URI\'s host, port, path segments and query arguments as options in order, Etag, max-age and Accept header fields as the corresponding options, and exactly its body (handed over separately when longer than a CoAP payload); unknown methods give 501, unusable URIs (fragment, other scheme, bad encoding) 400, unacceptable types 406, bodies that do not fit 502. A CoAP response becomes the HTTP response with the status its code stands for (codes without one give 502, never another class), its header fields, and the body with its length; no option value can add header fields. Uri-* options become the URI that translates back to the same options. Every failure is reported with a status code and leaks nothing.',
  ['inputs', 'fault_sequences'], 'every method, URI, header field, body, code and option value within the bounds, and every failing allocation',
  'Tests translate a dozen fixed messages; codes, encodings and header values outside them are unsampled.',
  ['proxy/common/src/cross.c', 'proxy/common/src/uri.c', 'proxy/common/src/http_msg.c'], [('request', 'proxy/common/src/cross.c cross_req_http_to_coap, cross_uri_http_to_coap, cross_headers_http_to_coap'), ('response', 'proxy/common/src/cross.c cross_resp_coap_to_http, cross_status_coap_to_http, cross_headers_coap_to_http'), ('URI of a CoAP message', 'proxy/common/src/cross.c cross_uri_coap_to_http')],
  SBND + 'Up to 4 symbolic bytes per message at every field (all 256 codes), bodies up to 1032 bytes of which 2 are symbolic. Max-Age, Uri-Port and Accept travel as decimal text, as the tests of the library require. Percent-encoded / and & are not distinguished from delimiters and not judged.', sym=True)
p('C17', 'The proxy takes its configuration exactly as written and refuses anything else',
  'For every text of a configuration, either it is accepted, and looking up a section and name then yields exactly the value last assigned to it in the text (an identifier, a number or a quoted string; white space and comments apart; the last line may lack a line end) and nothing for what was not assigned, or the first syntax error is reported with its own line, column and kind. Nothing outside the text is read. Values set by the application are found again and replace older ones. The parameters of the proxy are those of the file, or their defaults where the file says nothing; an unreadable or malformed file or an unknown log level is refused. Every failing allocation or file operation is reported, and nothing leaks.',
  ['inputs', 'fault_sequences'], 'every text within the bounds and every failing allocation or file operation',
  'Tests parse a few fixed configurations; separators, truncated lines, long tokens and errors in every position are unsampled.',
  ['proxy/common/src/config.c', 'proxy/http_coap/src/param.c', 'proxy/common/src/util.c'], [('reading', 'proxy/common/src/config.c config_parser_lex, config_parser_exec, config_parse'), ('lookup', 'proxy/common/src/config.c config_get, config_set'), ('parameters', 'proxy/http_coap/src/param.c param_create, param_parse')],
  SBND + 'Any text of 3 bytes, and longer texts (assignments, numbers, strings, sections, comments) with every window of 2 or 3 bytes symbolic; names and values of up to 129 characters at the limits of the growing buffer. The file is a model that may fail at any call.', sym=True)
p('C18', 'The proxy answers every HTTP request, in order, with the response of the CoAP server its URI names',
  'Whatever the division of the received bytes into TLS records, and with requests pipelined or larger than the buffers, each complete HTTP request gets exactly one complete, delimited response, in order: the translation of what the CoAP server named by its URI (default port 5684; the connection to it is kept while host and port stay the same) answered to exactly this request, blockwise transfers continued, retried and reassembled for long bodies. Malformed, unacceptable or untranslatable requests, unreachable servers and failing exchanges get the status that stands for it (400, 406, 501, 502, 504). At the end of the connection, on a timeout, a failing write or out of memory everything is closed and released. The buffers of the proxy hold the bytes put in, in order, and never more than allowed.',
  ['inputs', 'fault_sequences', 'histories'], 'every division into records, every answer of the server and every failing operation within the bounds',
  'The tests of the proxy need a network and certificates; divisions of the input, exact buffer limits and failures are never sampled.',
  ['proxy/http_coap/src/connection.c', 'proxy/common/src/data_buf.c', 'proxy/common/src/cross.c'], [('connection', 'proxy/http_coap/src/connection.c connection_thread_func, connection_exchange, connection_process, connection_coap_exchange, connection_recv, connection_send'), ('buffers', 'proxy/common/src/data_buf.c')],
  SBND + 'Up to 3 requests per connection, up to 4 records divided at symbolic positions, bodies up to the limits of the buffers; TLS records and the CoAP client are modelled by their contracts (C09, C20). Threads and listening are outside.', sym=True)
p('C19', 'Nothing is exchanged with a peer whose certificate was not found to be good',
  'A CoAP or proxy client over DTLS/TLS is set up, and a server accepts a connection or handles a request, only after the handshake succeeded and the certificate of that very peer was verified against the trust file (and revocation list) of the application: valid signature by a known authority, not revoked, an X.509 certificate that is present and readable, in force now, and with the expected name if one was given; a client of a server has to present one. Every peer whose certificate is good is accepted. A failing step of any kind refuses the peer, and all sessions, certificates, credentials, sockets and memory are released.',
  ['inputs', 'fault_sequences', 'histories'], 'every result of the verification, every time and every failing step',
  'The tests need certificates and a network and use one good certificate; no test presents a bad one.',
  ['lib/src/coap_client.c', 'lib/src/coap_server.c', 'proxy/common/src/tls_sock.c', 'proxy/common/src/tls.c'], [('DTLS client', 'lib/src/coap_client.c coap_client_create, coap_client_dtls_verify_peer_cert'), ('DTLS server', 'lib/src/coap_server.c coap_server_run, coap_server_trans_dtls_verify_peer_cert'), ('TLS', 'proxy/common/src/tls_sock.c tls_sock_open, tls_ssock_accept')],
  SBND + 'GnuTLS and the sockets are modelled: at most one call fails per run, at most two repetitions of a handshake, certificates, status words and times symbolic; servers with up to 4 packets of two clients. The cryptography itself is GnuTLS.', sym=True)
p('C20', 'TLS connections of the proxy carry exactly the bytes given, and sessions are resumed only with their own data',
  'Reading from or writing to a TLS socket delivers the bytes of the stream in order, none lost, repeated or invented, whatever pieces they come in and whatever interruptions occur in between; the full variants transfer all bytes or report the end of the connection, a timeout, an interruption or an error as what it is, and touch nothing outside the buffer. A retried write repeats the same bytes. A session cache returns the data last stored for exactly that session or address, nothing for one that was never stored or was deleted, refuses what is too long, and always finds what was stored last. A listening socket is set up completely or not at all.',
  ['inputs', 'fault_sequences', 'histories'], 'every sequence of pieces, interruptions and failures, and every sequence of operations on the caches, within the bounds',
  'The tests of the TLS code need a network and certificates and see whole records only.',
  ['proxy/common/src/tls_sock.c', 'proxy/common/src/tls.c'], [('reading and writing', 'proxy/common/src/tls_sock.c tls_sock_read, tls_sock_read_full, tls_sock_write, tls_sock_write_full'), ('session caches', 'proxy/common/src/tls.c tls_client_set, tls_client_get, tls_server_set, tls_server_get, tls_server_delete'), ('listening', 'proxy/common/src/tls_sock.c tls_ssock_open')],
  SBND + 'Transfers of 4 symbolic bytes in pieces of 1 to 3 with up to 4 interruptions; up to 4 operations on a cache with keys of up to 2 symbolic bytes, empty or after 49 to 51 other sessions. Several threads are outside.', sym=True)
