#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})


HP = "lib/hpack/"
prop("C01", "Valid HPACK header blocks decode to exactly the fields that were sent",
     "For every sequence of header blocks a conforming HPACK encoder may send on one connection - indexed fields, literals with, without and never indexing, static, dynamic and new names, plain or Huffman strings of up to 4096 octets, table size updates at the start of a block, fields that come to at most 256 KiB (counted as table entries are) - decoding each block in turn yields exactly the encoded names and values in order. This holds across evictions, entries larger than the table, and size changes anywhere from 0 to 64 KiB.",
     ["inputs", "histories"], "all conforming block sequences against one decoder state",
     "Unit tests decode about 20 hand-written blocks, most of them one block on a fresh table; eviction/size-change/index histories are not sampled.",
     [HP + "header_block_decoder.cpp", HP + "dynamic_table.cpp", HP + "huffman_tree.cpp", HP + "int_decoder.cpp", HP + "header_static_table.h"],
     [("representation dispatch, static/dynamic lookup, string reading", HP + "header_block_decoder.cpp"), ("FIFO table with eviction", HP + "dynamic_table.cpp")],
     [("dynamic table", "fields shared between the two ends of the connection", HP + "dynamic_table.h")],
     ["return value of decoding a block", "requests as handlers see them"])
prop("C02", "Malformed or truncated HPACK input is rejected, never misread",
     "Any octet string offered as a header block, in any decoder state, either decodes to exactly the fields RFC 7541 assigns to it or is reported as an error, without ever reading outside the block or crashing. It is always an error when the block is truncated anywhere, uses index 0 or an index beyond both tables, holds an integer that is cut short or exceeds 32 bits, Huffman data that contains EOS or is not padded with fewer than eight 1-bits, a string that decodes to more than 4096 octets, a table size update above 64 KiB, or more fields than come to 256 KiB, each counted as a table entry would be.",
     ["inputs", "histories"], "all octet strings, in every reachable decoder state",
     "The tests feed a handful of invalid first bytes and one over-long string; truncation points, overflowing indexes and bad Huffman endings form an unbounded input space.",
     [HP + "header_block_decoder.cpp", HP + "int_decoder.cpp", HP + "huffman_tree.cpp", HP + "byte_reader.cpp"],
     [("checked reads", HP + "byte_reader.cpp"), ("error propagation out of every field decoder", HP + "header_block_decoder.cpp")],
     (), ["error result of decoding", "sanitizer reports"])
prop("C03", "Header blocks the server encodes decode to the same fields in any decoder",
     "For every sequence of header lists - any octets in names and values, any lengths, repeated names, any number of distinct fields - the blocks the encoder produces, given in order to an independent RFC 7541 decoder with the same table limit, yield exactly those lists in order. The encoder's view of the table never runs ahead of or behind the decoder's.",
     ["inputs", "histories"], "all sequences of header lists on one encoder",
     "Encoder tests encode at most three fields; indexes above 62, multi-octet indexes, octets above 0x7f and evictions are never produced.",
     [HP + "header_block_encoder.cpp", HP + "dynamic_table.cpp", HP + "int_encoder.cpp", HP + "huffman_codes.h", HP + "bit_writer.h"],
     [("choice of representation and index arithmetic", HP + "header_block_encoder.cpp"), ("Huffman packing and padding", HP + "bit_writer.h")],
     [("encoder table", "what the peer's decoder is assumed to hold", HP + "dynamic_table.h")], ["encoded octets"])
prop("C04", "HPACK integers round-trip for every value and prefix; bad ones are refused",
     "For every 32-bit value and every prefix of 1 to 8 bits, encoding produces the octets RFC 7541 section 5.1 prescribes and decoding them - whatever the other bits of the first octet - returns the value and consumes exactly those octets. Input that ends early, represents more than 2^32-1, or has more than five continuation octets is reported as an error, and encoding with a prefix outside 1..8 is refused.",
     ["inputs"], "all values x prefixes x surrounding bits, and all octet strings",
     "A dozen values are tested; boundaries around each prefix limit and each 7-bit group, and trailing data, are not.",
     [HP + "int_decoder.cpp", HP + "int_encoder.cpp", HP + "byte_reader.cpp"],
     [("prefix mask, continuation loop, overflow guard", HP + "int_decoder.cpp"), ("continuation loop", HP + "int_encoder.cpp")], (), ["return values and reader position"])
prop("C05", "Huffman strings decode exactly and only when RFC 7541 allows them",
     "For every octet string, its RFC 7541 Huffman encoding decodes back to exactly that string. A bit string is accepted if and only if it is a run of complete symbol codes followed by fewer than eight bits that are all ones; everything else, including an embedded EOS code, is an error.",
     ["inputs"], "all octet strings and all bit strings",
     "One test decodes each of the 256 symbols alone; pairs, paddings and invalid endings are not covered.",
     [HP + "huffman_tree.cpp", HP + "huffman_codes.h", HP + "bit_reader.h", HP + "bit_writer.h"],
     [("tree walk and end-of-data handling", HP + "huffman_tree.cpp"), ("code table", HP + "huffman_codes.h")], (), ["decoded strings or error"])
prop("C06", "The dynamic header table is a bounded FIFO that agrees with RFC 7541",
     "After any sequence of insertions, limit changes and lookups the table holds exactly the most recent insertions whose sizes (name + value + 32 octets each) fit the limit in force at each step, newest first, with its reported size and count matching. An entry larger than the limit empties the table, and a search returns the most recent matching entry or none.",
     ["histories"], "all sequences of insert / resize / find / get operations",
     "Tests perform one or two insertions per case; long mixed histories with resizes to exact boundaries are not explored.",
     [HP + "dynamic_table.cpp"], [("eviction loops and size accounting", HP + "dynamic_table.cpp")],
     [("entries and running size", "must equal the sum of entry sizes", HP + "dynamic_table.h")], ["table contents, size, count"])
prop("C07", "Frame headers and fixed-size payloads round-trip through their wire form",
     "For every frame header (24-bit length, any type and flags, 31-bit stream id), setting, GOAWAY and WINDOW_UPDATE payload, writing and re-reading gives back the same fields, and the octets are the big-endian layout of RFC 9113. Reserved bits are ignored when reading and zero when writing.",
     ["inputs"], "all field values and all octet patterns",
     "Tests parse two constants; byte order and masking of every field over the full range is not covered.",
     ["lib/http2_frames.h"], [("big-endian load/store and masking", "lib/http2_frames.h")], (), ["parsed fields and serialized octets"])
prop("C08", "Frame payload readers return exactly the payload's content and stay inside it",
     "For every frame header and payload of any length: SETTINGS yields exactly its identifier/value pairs in order or is refused when not a multiple of six octets; the header block of a HEADERS frame is exactly the payload without its padding and priority fields; the byte- and bit-level readers return the data in order and report exhaustion exactly at the end. No reader ever touches an octet outside the payload, however short it is.",
     ["inputs"], "all flag combinations x payload contents and lengths",
     "The tests read one PRIORITY header block and one well-formed buffer; payloads shorter than their fixed fields, padding and exact-boundary reads are not sampled.",
     ["lib/http2_frame_reader.h", "lib/http2_frame_reader.cpp", HP + "byte_reader.cpp", HP + "bit_reader.h"],
     [("size checks before each fixed-size read", "lib/http2_frame_reader.cpp"), ("position arithmetic", HP + "byte_reader.cpp")], (), ["reader results", "sanitizer reports"])
CONN = "lib/http2_conn.cpp"
prop("C09", "No peer byte stream or transport fault can crash or wedge a connection",
     "For every byte sequence a peer can send, cut into reads in any way and interleaved with any transport outcomes (would-block, short writes, closure, errors) on either direction, every processing step terminates without memory error and reports either what it waits for or that the connection is to be discarded. Whatever the server has written at any moment is a prefix of a sequence of well-formed HTTP/2 frames that begins with a SETTINGS frame.",
     ["inputs", "fault_sequences"], "all octet streams x read/write fault sequences",
     "There are no tests of the connection in the offline suite at all, and the system tests only drive well-behaved clients.",
     [CONN, "lib/http2_frame_reader.cpp", HP + "header_block_decoder.cpp"],
     [("state machine, buffer limits, frame length check", CONN)], [("connection state", "handshake, preface, frames, closing", "lib/http2_conn.h")], ["bytes written to the transport", "result of each step", "sanitizer reports"])
prop("C10", "Splitting of reads and writes never changes what the peer or handlers see",
     "For every client byte stream, any segmentation of its delivery and any pattern of short or blocked writes lead to the same sequence of handler invocations and to the same bytes sent to the client as delivering everything at once and writing without blocking, also when the client ends its sending side right after its last byte. No byte of the output is lost, repeated or reordered, including over a real non-blocking socket whose buffer fills.",
     ["inputs", "schedules", "fault_sequences"], "all client streams x segmentations x write acceptance patterns",
     "Tests never control read sizes or socket back-pressure.",
     [CONN, "lib/transports/tcp_transport.cpp"], [("read and write buffers", CONN), ("partial write handling", "lib/transports/tcp_transport.cpp")],
     [("read/write buffers", "unparsed input, unsent output", "lib/http2_conn.h")], ["handler call log", "bytes written"])
prop("C11", "Every request gets exactly one complete, faithful response on its own stream",
     "For every sequence of requests on a connection, each request is answered exactly once, in order, on its own stream: one header block whose status and fields are those the handler returned plus content-length for a non-empty body and the server's identification, followed by exactly the handler's body. The end-of-stream mark is on the last DATA frame only, or on the HEADERS frame when there is no body, no frame exceeds 16384 octets, and the header blocks decode in order within the HPACK table size the client announced (4096 octets by default).",
     ["inputs", "histories"], "all request sequences x handler responses (status, header fields, body sizes)",
     "The offline suite has no connection test; curl-based tests look at a few fixed responses.",
     [CONN, HP + "header_block_encoder.cpp"], [("response assembly and DATA chunking", CONN)], [("encoder table", "must match the client's", "lib/http2_conn.h")], ["frames written to the client"])
prop("C12", "Handlers see exactly the request the client sent",
     "For every header block of up to 64 KiB, whose fields come to at most 256 KiB, sent in a HEADERS frame alone or continued in any number of CONTINUATION frames of any sizes - any field list, any legal HPACK encoding, with or without padding and priority fields, on any stream, with other traffic between the blocks - exactly one handler call is made, and its method, path and header list equal what the client encoded, in order. Frames of other types never cause handler calls.",
     ["inputs", "histories"], "all header lists x encodings x frame layouts x interleaved frames",
     "No offline test drives a request through a connection.",
     [CONN, "lib/http2_frame_reader.h", HP + "header_block_decoder.cpp"], [("frame dispatch and request construction", CONN)], (), ["request object passed to the handler"])
prop("C13", "A protocol violation ends the connection and nothing after it is acted on",
     "When a client sends a wrong connection preface, a frame longer than 16384 octets, a SETTINGS frame whose size is not a multiple of six, a HEADERS frame whose padding or priority fields do not fit, an undecodable header block, one interrupted by any other frame, a CONTINUATION frame that continues nothing, or a WINDOW_UPDATE or PING of the wrong size, the connection is discarded, with at most a GOAWAY that gives an error code and a last stream not below any that was answered. Every complete request before the violation has been answered, and no byte after it causes a handler call or a response.",
     ["inputs", "histories"], "all valid prefixes x violations x trailing data x segmentations",
     "No offline test covers any violation at connection level.",
     [CONN], [("transition to the protocol-error state", CONN)], [("connection state", "once in error nothing is processed", "lib/http2_conn.h")], ["result of processing", "handler calls", "bytes written"])
prop("C14", "Connection control frames are answered as HTTP/2 requires",
     "The first frame the server sends, once a valid preface has arrived, is one non-ACK SETTINGS frame; each well-formed non-ACK SETTINGS frame gets exactly one empty ACK, in order with other replies, and so does each PING, with the octets it carried; an ACK gets no reply. WINDOW_UPDATE and unknown frame types, with any flags and stream, are ignored, a GOAWAY ends the connection with nothing more processed, and nothing else is ever sent unprompted.",
     ["inputs", "histories"], "all interleavings of control, unknown and request frames",
     "Only external system tests (not run offline) touch control frames.",
     [CONN], [("frame dispatch", CONN)], (), ["frames written", "result of processing"])
prop("C15", "A failing handler or an incomplete request costs one response, nothing more",
     "If a handler throws anything at all, or a middleware does, within a request or already as it wraps the handler, that request is answered with status 500, and a request lacking :method or :path is answered with status 400 without calling a handler. Each such response is a complete well-formed response, and every other request on the same connection, before or after, is answered as if the failure had not happened.",
     ["inputs", "histories", "fault_sequences"], "all request sequences with arbitrarily placed handler failures and missing pseudo-headers",
     "No offline test makes a handler fail.",
     [CONN], [("exception barrier around the handler", CONN), ("pseudo-header check", CONN)], (), ["frames written"])
SRV = "lib/http2_server.cpp"
prop("C16", "Idle connections are closed after five seconds and active ones are kept",
     "A connection on which no byte has been received or sent for more than five seconds, in any phase (before or within the preface, between frames, mid-frame, blocked on writing), is closed at the server's next iteration, and so is one whose TLS handshake is not complete after five seconds. Otherwise, a connection that received or sent anything (over TLS: a complete record) within the last five seconds is never closed for inactivity.",
     ["schedules", "histories"], "all timings of traffic on any number of connections",
     "Needs control over the clock; no test waits for or simulates it.",
     [SRV, CONN], [("activity timestamp", CONN), ("reaping pass", SRV)], [("last activity", "time of the last successful read or write", "lib/http2_conn.h")], ["socket closure as a function of virtual time"])
prop("C17", "At most 128 connections are served at once, and capacity is always recovered",
     "However clients connect and disconnect, the server never serves more than 128 connections at the same time: one that arrives while 128 are open is closed without being served and without affecting the others. As soon as any connection has ended, a new one is accepted and served again.",
     ["histories", "schedules"], "all connect/disconnect/request histories around the limit",
     "No test opens more than a few connections.",
     [SRV], [("capacity check before accept", SRV)], [("connection map", "the connections being served", "lib/http2_server.h")], ["which clients are answered and which are closed"])
prop("C18", "What one connection does never disturbs another",
     "For any set of simultaneous connections, over TLS or cleartext, each well-behaved client receives exactly the responses it would receive alone, whatever the others do: garbage, broken TLS records, failed handshakes, abrupt resets, half-closed or stalled connections, refusing to read. The server keeps running throughout.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of well-behaved and hostile connections",
     "Tests use one client at a time.",
     [SRV, CONN, "lib/transports/tls_transport.cpp", "lib/transports/tcp_transport.cpp"], [("per-connection state; error handling per event", SRV), ("per-thread TLS error queue handling", "lib/transports/tls_transport.cpp")], (), ["bytes each client receives", "server liveness"])
prop("C19", "Every accepted socket is closed exactly once and nothing leaks",
     "Over any history of connects, requests, errors, timeouts, rejections and shutdown, each descriptor the server accepted is closed exactly once, when its connection ends and no later than the end of the server, and no descriptor it does not own is closed or used. When the server returns, the process holds the same descriptors as before it started. The memory a connection took is given back too: no history leaves more allocated each time it is repeated.",
     ["histories", "fault_sequences"], "all connection histories",
     "Tests do not account for descriptors.",
     [SRV, "lib/socket_fd.cpp", "lib/tcp_listener.cpp", "lib/pollers/epoll_poller.cpp"], [("owning descriptor wrapper", "lib/socket_fd.cpp"), ("connection map and poller bookkeeping", SRV)], (), ["close calls", "open descriptors"])
prop("C20", "Requests are routed to the first matching route, static mount or the 404",
     "For every set of registered routes and static mounts and every request, the handler that runs is the first-registered route whose path and method both equal the request's exactly; failing that, for GET and HEAD only, a static mount whose prefix the path starts with; otherwise the answer is 404. Looking up handlers and calling them in any order, even much later, never changes which one runs or what it is given.",
     ["inputs", "histories", "configurations"], "all route tables x requests x lookup/call interleavings",
     "Router tests cover three lookups with at most one route.",
     ["lib/router.cpp", "lib/static_file_handler.cpp"], [("linear first-match search", "lib/router.cpp")], [("routes, static mounts", "registration order is significant", "lib/router.h")], ["response returned"])
prop("C21", "Middleware wraps every request exactly once, first registered outermost",
     "For every set of middleware and routes, in any order of registration, each request passes through every middleware exactly once, nested in registration order with the first outermost, around whichever handler routing selected, the 404 included. Each layer sees the request and response as its neighbours left them and may answer without calling further in.",
     ["inputs", "histories", "configurations"], "all middleware stacks x routes x requests",
     "Two tests use a single middleware.",
     ["lib/router.cpp"], [("chain composition", "lib/router.cpp")], (), ["order of middleware calls", "response"])
SF = ["lib/static_file_handler.cpp", "lib/file_reader.cpp"]
prop("C22", "Static mounts never reveal anything outside their root directory",
     "For every directory tree, with symbolic links to files and directories inside and outside it, and every request path - dot segments, repeated slashes, absolute paths, query strings, odd octets, prefixes that only look like the root - a response never carries the content or size of a file that does not resolve to a location inside the mount's root, nor does it depend on what exists outside unless a link inside the root points there. Paths that resolve outside are refused with an error status.",
     ["inputs", "configurations"], "all directory trees x request paths",
     "Four hand-picked paths are tested on the path sanitizer alone.",
     SF, [("canonicalisation and component-wise prefix comparison", "lib/file_reader.cpp")], (), ["response status and body"])
prop("C23", "Static mounts serve each file under their root exactly",
     "For every tree and every GET for a regular file inside the root - directly, through dot segments or links that stay inside, with any query string - the response is 200 with the file's exact octets and the content type of its extension; the bare prefix, with or without slash and query, serves index.html. HEAD gives the same status and content type with the file's length as content-length and no body, and anything missing or not a regular file is 404 (or 403 when the path cannot be resolved at all, as with link loops).",
     ["inputs", "configurations"], "all trees, contents, sizes and names x GET/HEAD x path spellings",
     "No offline test serves a file.",
     SF, [("relative path computation, query removal, index", "lib/static_file_handler.cpp"), ("file reading and content types", "lib/file_reader.cpp")], (), ["response status, headers, body"])
prop("C24", "The access log has one truthful, unforgeable line per request",
     "With access logging on, every request that is answered adds exactly one line in Combined Log Format, in order, with the client's address, the time, the method, the path, the status and body size actually sent, the referrer and the user agent, '-' standing for absent values. Whatever octets a client puts in its request, it cannot add lines to the log or make a line parse into other fields.",
     ["inputs", "histories"], "all requests (including hostile octets) x responses x client addresses",
     "Not covered by any offline test; system tests grep one line.",
     ["lib/access_log.cpp", "lib/system_clock.cpp", "lib/socket_fd.cpp", CONN], [("entry formatting", "lib/access_log.cpp")], (), ["log lines parsed back"])
prop("C25", "The status page reports exactly the traffic served so far",
     "With the status page enabled, after any history of requests the page shows the number of requests routed so far (itself included), one count per status code returned by completed requests, the uptime in days/hours/minutes/seconds, the average latency, the version and an instance id that stays the same. Enabling it changes no other response.",
     ["histories"], "all request histories and times",
     "Not covered by any offline test.",
     ["app/status_page.cpp", "app/server_stats.cpp"], [("counting middleware", "app/server_stats.cpp"), ("page rendering", "app/status_page.cpp")], [("counters", "requests and per-status totals", "app/server_stats.h")], ["page content"])
prop("C26", "Every request is traced by exactly one span that describes it",
     "For every complete header block received there is exactly one span, of the same name for all, started before and ended after its handling, current while the handler runs and not afterwards; for a request with method and path it carries exactly that method, target and client address, and the status code of the response sent. Spans of different requests never share or mix attributes.",
     ["inputs", "histories"], "all request sequences, including failing handlers and undecodable blocks",
     "Telemetry tests need a collector and are not run offline.",
     [CONN], [("span creation and attributes", CONN)], (), ["spans reported to the tracing API"])
POL = ["lib/pollers/epoll_poller.cpp", "lib/pollers/poll_poller.cpp"]
prop("C27", "Both pollers report exactly the readiness of the descriptors registered",
     "After any sequence of registrations, interest changes, removals, closures and re-use of descriptor numbers, polling reports every registered descriptor that is ready for what it is registered for, or has hung up or failed, with the right event kinds, and never reports an interest that was not registered or a removed descriptor. With nothing ready it reports a timeout, and the two implementations agree.",
     ["histories", "schedules"], "all operation sequences over any number of descriptors",
     "No offline test exercises a poller.",
     POL, [("interest bookkeeping and event translation", "lib/pollers/epoll_poller.cpp"), ("poll set construction", "lib/pollers/poll_poller.cpp")], [("registered descriptors", "interest per descriptor", "lib/pollers/epoll_poller.h")], ["events returned"])
prop("C28", "A socket handle owns its descriptor exactly once",
     "After any sequence of creating, moving, move-assigning (to itself as well), closing and destroying handles, each descriptor is closed exactly once, when its last owner is closed, overwritten or destroyed; a moved-from or closed handle owns nothing and using it closes nothing. The peer address it reports is that of the connected peer, for IPv4 and IPv6, and an error when there is none.",
     ["histories"], "all sequences of handle operations",
     "No test covers ownership transfers.",
     ["lib/socket_fd.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"], [("move operations and destructor", "lib/socket_fd.cpp")], (), ["close calls", "descriptor liveness"])
prop("C29", "Transports carry both byte streams intact and report their end truthfully",
     "Over cleartext and TLS sockets, for any sequence of reads and writes of any sizes on both ends, with full buffers, fragmented delivery and resumed writes, the bytes accepted by one end arrive at the other exactly once and in order; would-block, orderly closure and failure are each reported as such and never invented. TLS negotiates h2 with every client that offers it, and invalid or mismatched certificate and key files are refused at construction.",
     ["inputs", "schedules", "fault_sequences"], "all read/write/close interleavings x buffer limits",
     "No offline test exercises a transport.",
     ["lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp", "lib/transports/tls_context.cpp"], [("mapping of system and OpenSSL results", "lib/transports/tls_transport.cpp"), ("ALPN selection", "lib/transports/tls_context.cpp")], (), ["bytes at both ends", "transport results"])
prop("C30", "The server program does what its command line says, end to end",
     "For every valid combination of options - port, log level, TLS files by option or environment, cleartext, static mapping, access log, custom 404 file, status page, test routes - real HTTP/2 clients get the documented behaviour of exactly the features selected and of no other (a custom 404 page, for one, replaces 404 answers only: paths that lead out of the mapping stay 403), and the program exits with success on SIGINT or SIGTERM. Invalid options, unusable certificates or an occupied port make it exit with failure instead of serving.",
     ["configurations", "inputs"], "all option combinations x requests",
     "The system tests need packages and Python versions not available offline and fix a handful of configurations.",
     ["app/main.cpp", "app/args.cpp", "app/signal_handler.cpp", "app/test_routes.cpp"], [("option parsing", "app/args.cpp"), ("wiring of features", "app/main.cpp")], (), ["HTTP responses", "exit status", "files written"])
prop("C31", "Asking the server to stop ends it promptly from any state",
     "At whatever moment of whatever history stop is requested - idle, between events, within a handler, with any number of open, blocked, half-open or handshaking connections - the server finishes its current iteration, accepts and serves nothing more, and returns. All its connections and its listening socket are closed by the time it is destroyed.",
     ["histories", "schedules"], "all histories x stop points",
     "System tests stop an idle server only.",
     [SRV, "app/signal_handler.cpp"], [("termination flag checked every iteration", SRV)], [("termination flag", "set by stop, possibly from a signal handler", "lib/http2_server.h")], ["return of the serving call", "activity after the request"])

prop("C32", "No client can make its connection hold unbounded memory",
     "Whatever a client sends on a connection, for however long - requests, fields never seen before, control or unknown frames, header blocks that never end - and however slowly or never it reads the answers, the memory the server holds for that connection, between steps and (up to a larger bound) within one, never exceeds a fixed bound plus a few times the largest response a handler returned. While earlier answers cannot be sent the server stops reading, and everything is given back when the connection ends.",
     ["histories", "inputs", "schedules"], "all endless client streams x reading behaviours",
     "Needs megabytes of traffic against a client that does not read, with memory measured while it goes on; no test looks at memory.",
     [CONN, "lib/hpack/dynamic_table.cpp"],
     [("read buffer limit, no reading while output is pending", CONN), ("eviction in both header tables", HP + "dynamic_table.cpp")],
     [("read and write buffers, header tables, unfinished header block", "everything a connection keeps", "lib/http2_conn.h")], ["allocated memory during and after each step", "octets read while blocked"])
prop("C33", "Nothing a client sends can forge or corrupt lines of the program's own log",
     "Whatever octets clients put into requests, frames or TLS handshakes, at every log level, every line the program writes to its log is one whole message: a timestamp, a level, then text without control characters, and client text never begins a line. Lines written while a request is handled carry that request's trace id, the others none, and none do when tracing is switched off.",
     ["inputs", "configurations"], "all client octets x log levels x tracing on or off",
     "The system tests look for single expected lines with well-behaved clients.",
     ["app/main.cpp", "app/trace_id_flag.h", CONN, "lib/router.cpp", "lib/static_file_handler.cpp"],
     [("log pattern and its custom flags", "app/main.cpp"), ("messages that quote client text", CONN)], (), ["standard output of the program"])
prop("C34", "The server waits, rather than works, while there is nothing it can do",
     "Whatever state its connections are in - idle, waiting mid-frame or mid-handshake, blocked because the client does not read while it has sent more, half-closed, or not accepted for want of descriptors or memory - as long as nothing new arrives and nothing can be sent, the server sleeps in its poller with a positive timeout. After each event it is woken only a small number of times per connection, never in a busy loop.",
     ["histories", "schedules"], "all histories x rests in which nobody does anything",
     "A busy loop gives the right answers to every client; only counting wake-ups while nothing happens shows it.",
     [SRV, CONN], [("interest registered per connection from what it waits for", SRV), ("what a processing step waits for", CONN)],
     [("poll interest", "reading or writing, per connection", "lib/http2_server.cpp")], ["calls of the poller and their outcomes"])

prop("C35", "TLS session secrets are written to SSLKEYLOGFILE, completely, and nowhere else",
     "With SSLKEYLOGFILE naming a file, every secret of every completed TLS handshake, of any protocol version, is appended to it exactly once as one whole line of the NSS key log format equal to what the client itself derives, by the time the client is answered, and what the file held before stays. Without it, or when the file cannot be written, no file is created or changed and clients are served all the same; session secrets and the private key never appear in the program's log.",
     ["histories", "configurations"], "all settings of the variable x handshake histories",
     "Not covered by any offline test; a capture decrypted by hand shows only one connection.",
     ["lib/transports/tls_context.cpp"], [("key log callback", "lib/transports/tls_context.cpp")], (), ["the file's content", "standard output of the program"])

prop("C36", "The program ends when its output has lost its reader, never due to a client",
     "When whatever reads the program's standard output - a pipe or a socket - goes away, the program ends after the next line it writes there, whether or not standard error leads to the same place. As long as its outputs have their readers, nothing clients do, such as resetting connections in the middle of handshakes or responses, and no SIGPIPE from elsewhere, ends the program or costs other clients their answers.",
     ["histories", "faults"], "all kinds of outputs x moments at which they break x client histories",
     "Needs a broken pipe on the program's own output, which no test sets up.",
     ["app/signal_handler.cpp"], [("SIGPIPE handler", "app/signal_handler.cpp")], (), ["end of the program", "answers to clients"])

prop("C37", "A server starts and serves as configured, or fails and leaves nothing behind",
     "A server can be constructed exactly if it is set to cleartext or both certificate and key can be loaded and belong together. Each start either serves clients on the given port of every local address (also while connections of an earlier server linger there), over TLS with exactly the configured certificate, or throws an exception that says why, whichever system call fails while it is set up (socket, bind, listen, creating the poller, registering the listening socket); it never waits for clients it cannot get. After a failed start the same server can be started again, and no descriptor or memory is left behind.",
     ["faults", "configurations", "histories"], "all settings x set-up faults x sequences of starts",
     "Faults of system calls during set-up and repeated starts are not sampled by any test.",
     [SRV, "lib/server_config.cpp", "lib/transports/tls_context.cpp", "lib/pollers/epoll_poller.cpp"],
     [("start", SRV), ("certificate and key", "lib/transports/tls_context.cpp")], (), ["constructor and start", "open descriptors", "answers to clients"])

prop("C38", "Servers and connections on different threads do not affect one another",
     "Any number of servers, connections and routers in one process, each used from a thread of its own, behave exactly as each would alone: the same calls of handlers, the same octets sent, the same lines in an access log they share, whatever the others do at the same time. A server started in one thread can be stopped from any other at any moment. No two threads ever access the same memory without synchronisation.",
     ["schedules", "histories"], "all sets of actors x their histories x interleavings of their threads",
     "The tests stop servers from other threads but run one at a time and cannot see data races.",
     [SRV, CONN, "lib/router.cpp", "lib/access_log.cpp", "lib/hpack/huffman_tree.cpp"],
     [("no state but the server's or connection's own", CONN), ("termination flag", SRV)], (), ["octets sent", "calls of handlers", "access log", "accesses to memory"])

prop("C39", "However fast a client sends, the server gets to its other work",
     "A turn of one connection is bounded: whatever a client sends and however much faster than it is processed - requests, control frames, DATA or unknown frames, of any size, over TLS or not - the server returns to its other connections, to accepting new ones, to closing idle ones and to a request to stop after taking a bounded amount (at most 4 MiB) from that client. Ordinary clients get exactly their answers meanwhile, a client that is being served is not taken for idle, and all that was sent is processed in the end, even if nothing more arrives.",
     ["schedules", "histories"], "all endless streams of several clients x other clients x moments of stopping",
     "Needs clients that always have more to send than was read; a test sends a fixed amount, which ends by itself.",
     [CONN, SRV], [("end of a turn", CONN), ("interest in events while there is more to do", SRV)], (), ["octets read per turn", "answers to clients", "idle connections", "return from start"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
