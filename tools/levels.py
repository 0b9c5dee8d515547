"""Per check: the deciding technique and the assurance it gives (used by gen_manifest.py)."""
ENGINE = "PBT (generated choice tapes, coverage-guided mutation, shrinking)"
TECH = {
    "C01": "model-based histories against an independent reference HPACK codec",
    "C02": "structured fuzzing of header blocks against a strict reference decoder",
    "C03": "round-trip through two independent decoders (reference model and libnghttp2)",
    "C04": "round-trip and differential against a reference integer codec",
    "C05": "round-trip and differential against a reference Huffman decoder",
    "C06": "stateful model-based testing of the table",
    "C07": "round-trip and differential against a big-endian layout model",
    "C08": "differential against a payload model, on exact-size heap buffers under ASan",
    "C09": "fuzzing of client streams x transport fault scripts with invariants after every step",
    "C10": "metamorphic: one session under two deliveries, fake transports and real sockets",
    "C11": "request/response histories judged by an HTTP/2 client model",
    "C12": "generated header lists and encodings, handler calls compared with what was encoded",
    "C13": "valid sessions with one planted violation and trailing data, against a model of where to stop",
    "C14": "interleaved control frames against an in-order reply model",
    "C15": "sessions with planted handler failures against the fault-free model",
    "C16": "server simulation on a virtual clock: timed histories against an activity model",
    "C17": "server simulation: connect/disconnect histories against a capacity model",
    "C18": "server simulation: hostile and honest clients, honest ones compared with running alone",
    "C19": "server simulation: descriptor accounting over fault histories",
    "C20": "random route tables and requests against a reference router",
    "C21": "random middleware stacks against a reference interpreter of the onion",
    "C22": "random directory trees and paths, leak oracle plus a metamorphic relation",
    "C23": "random directory trees, content compared with the file system model",
    "C24": "sessions with hostile octets, log lines parsed back and compared",
    "C25": "request histories on a virtual clock against a statistics model, pages parsed back",
    "C26": "sessions against a recording tracing API, spans compared with a model",
    "C27": "operation histories on both pollers against poll(2) as ground truth",
    "C28": "operation histories against an ownership model with intercepted close",
    "C29": "read/write/close histories over real sockets and a scripted TLS peer against a stream model",
    "C30": "random command lines and client sessions against the real program",
    "C31": "server simulation: stop at random points of random histories",
    "C32": "endless generated client streams, allocated memory as an invariant after every step",
    "C33": "hostile clients against the real program, its log lines parsed back",
    "C35": "handshake histories against the real program, its key log compared with the clients' own secrets",
    "C36": "client histories against the real program whose output breaks at a generated moment",
    "C38": "generated actors on concurrent threads under ThreadSanitizer, compared with runs of each alone",
    "C39": "server simulation: clients whose streams grow whenever they are read, octets per turn as an invariant, sessions judged by the client model",
    "C37": "server simulation: faults injected into set-up across generated settings and repeated starts",
    "C34": "server simulation: wake-ups counted during rests of random histories",
}
TECH = {k: f"{ENGINE}: {v}" for k, v in TECH.items()}
_COMMON = ("Generated-input search with ASan/UBSan: shows the property on the cases explored, never its "
           "absence of violations. ")
_CONN = "Trusts the client model in harness/conn.h (its own HPACK decoder) and a scripted transport. "
_SIM = ("Single-threaded simulation of the real server loop: time, listening socket and polling are "
        "interposed at link time, connections are real socket pairs. ")
NOTE = {
    "C01": "Trusts the reference codec in harness/hpack_ref.cpp, whose tables were checked against libnghttp2.",
    "C02": "Trusts the strict reference decoder; the exact limits (4096-octet strings, 64 KiB table, 32-bit integers) are those the code documents.",
    "C03": "Two independent decoders must agree; trusts that they do not share a defect.",
    "C04": "Boundary values of each prefix and group are enumerated in the seed cases.",
    "C05": "All 1- and 2-symbol strings and all paddings are seed cases or frequent.",
    "C06": "Trusts the list model of RFC 7541 section 4.",
    "C07": "Trusts the layout model written from RFC 9113.",
    "C08": "Out-of-bounds reads are seen by ASan on exact-size heap buffers.",
    "C09": _CONN + "Which error a peer is told is not judged here.",
    "C10": _CONN + "Part of the cases run over real non-blocking socket pairs with small buffers.",
    "C11": _CONN + "Flow control is not judged: the server does not implement it.",
    "C12": _CONN + "Larger header blocks than 64 KiB may be refused.",
    "C13": _CONN,
    "C14": _CONN,
    "C15": _CONN,
    "C16": _SIM,
    "C17": _SIM,
    "C18": _SIM,
    "C19": _SIM,
    "C20": "Where several static prefixes match, any of them may answer.",
    "C21": "Trusts the interpreter of middleware plans.",
    "C22": "Trees of some twenty entries on the sandbox's file system; races with changes to the tree are not explored.",
    "C23": "As C22; content types are compared with the documented table.",
    "C24": _CONN + "Any escaping is accepted from which the client's octets can be recovered unambiguously.",
    "C25": "Uses the page's visible text, found by label; the clock is interposed at link time.",
    "C26": "opentelemetry-cpp is not available here: a recording stand-in for its API is trusted.",
    "C27": "Real kernel descriptors (pipes, socket pairs, eventfd).",
    "C28": "close and getpeername are interposed at link time.",
    "C29": "Socket pairs instead of network sockets; OpenSSL is trusted.",
    "C30": "opentelemetry-cpp is replaced by a stand-in; clients are curl and a raw HTTP/2 client over loopback.",
    "C31": _SIM,
    "C32": "Memory is counted with the sanitizer's allocation hooks, at the end of and during every step.",
    "C33": "opentelemetry-cpp is replaced by a stand-in that gives every span a trace id of its own.",
    "C35": "OpenSSL's client side is the oracle for the secrets.",
    "C36": "The end is awaited for eight seconds; its exit status may be success or SIGPIPE.",
    "C38": "Races are looked for by happens-before analysis of the schedules that occur; OpenSSL and spdlog are not instrumented.",
    "C39": _SIM + "The reads of the server and of OpenSSL are interposed to refill the sockets.",
    "C37": _SIM + "A failing setsockopt may be reported or done without.",
    "C34": _SIM + "While it cannot accept connections it may wake up twice per time it waits in full.",
}
NOTE = {k: _COMMON + v for k, v in NOTE.items()}
NA = {}
