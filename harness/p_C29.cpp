// C29: transports carry both byte streams intact and report their end truthfully.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

#include <deque>

#include "ion_util.h"
#include "socket_fd.h"
#include "tls.h"
#include "transports/tcp_transport.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"

using namespace pbt;
using TErr = ion::TransportError;

// ------------------------------------------------------------------ injected failures of the system
static int g_inject_fd = -1, g_inject_errno = 0;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (fd == g_inject_fd && g_inject_errno) {
        errno = g_inject_errno;
        return -1;
    }
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (fd == g_inject_fd && g_inject_errno) {
        errno = g_inject_errno;
        return -1;
    }
    return __real_write(fd, b, n);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
    if (fd == g_inject_fd && g_inject_errno) {
        errno = g_inject_errno;
        return -1;
    }
    return __real_recv(fd, b, n, f);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
    if (fd == g_inject_fd && g_inject_errno) {
        errno = g_inject_errno;
        return -1;
    }
    return __real_send(fd, b, n, f);
}
}

static const char* name(TErr e) {
    switch (e) {
        case TErr::WantReadOrWrite:
            return "would block";
        case TErr::WriteError:
            return "write error";
        case TErr::ConnectionClosed:
            return "closed";
        case TErr::ProtocolError:
            return "protocol error";
        default:
            return "other error";
    }
}
static std::string show(const std::expected<ssize_t, TErr>& r) {
    return r ? std::format("{} octets", *r) : name(r.error());
}

// a stream of pseudo-random octets, so that any piece lost, repeated or swapped shows
struct Source {
    uint32_t x;
    explicit Source(uint32_t seed) : x(seed | 1) {}
    Bytes take(size_t n) {
        Bytes b(n);
        for (auto& v : b) {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            v = static_cast<uint8_t>(x >> 8);
        }
        return b;
    }
};

struct Sockets {
    int s = -1, p = -1;  // the server's, the peer's
    explicit Sockets(Case& c) {
        int v[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, v) != 0) {
            c.fail("harness: socketpair");
        }
        s = v[0];
        p = v[1];
        for (int fd : v) {
            if (!c.chance(1, 4)) {
                int n = static_cast<int>(2000 + c.skewed(40000));
                setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
            }
        }
    }
    ~Sockets() {
        close_peer();
    }
    void close_peer() {
        if (p >= 0) {
            close(p);
            p = -1;
        }
    }
    bool server_writable() const {
        pollfd f{s, POLLOUT, 0};
        return poll(&f, 1, 0) == 1 && (f.revents & POLLOUT);
    }
};

static size_t a_size(Case& c, size_t max) {
    return 1 + (c.chance(1, 3) ? c.u(max - 1) : c.skewed(max - 1));
}
static void pollute(Case& c) {
    if (c.chance(1, 4)) {
        errno = c.pick<int>({EAGAIN, EINTR, ECONNRESET, EPIPE});
    }
    if (c.chance(1, 6)) {  // left behind by something else in this thread
        ERR_raise(ERR_LIB_SSL, c.pick<int>({SSL_R_UNEXPECTED_EOF_WHILE_READING, SSL_R_BAD_PROTOCOL_VERSION_NUMBER, SSL_R_HTTP_REQUEST}));
    }
}

// ------------------------------------------------------------------ cleartext
static void tcp(Case& c) {
    Sockets so(c);
    auto t = std::make_unique<ion::TcpTransport>(ion::SocketFd(so.s));
    Source from_peer(static_cast<uint32_t>(c.u(UINT32_MAX))), from_server(static_cast<uint32_t>(c.u(UINT32_MAX)));
    std::deque<uint8_t> to_server, to_peer;
    bool peer_ended = false, peer_gone = false, reset = false, shut = false, peer_saw_eof = false;
    bool blocked = false, partial = false;
    size_t moved = 0;
    auto peer_reads = [&](size_t n) {
        if (peer_gone) {
            return;
        }
        Bytes b(n);
        const ssize_t k = __real_read(so.p, b.data(), n);
        if (k > 0) {
            c.check(static_cast<size_t>(k) <= to_peer.size() && std::equal(b.begin(), b.begin() + k, to_peer.begin()),
                    [&] { return std::format("the peer receives {} octets that were not written next", k); });
            to_peer.erase(to_peer.begin(), to_peer.begin() + k);
            moved += static_cast<size_t>(k);
        } else if (k == 0) {
            peer_saw_eof = true;
            c.check(shut, "the peer sees the end of a stream that was not shut down");
            c.check(to_peer.empty(), "the stream ends before everything written arrived");
        } else {
            c.check(to_peer.empty(), "octets reported as written do not arrive");
            c.check(!shut, "the peer does not see the end of the stream after the shutdown");
        }
    };
    auto server_reads = [&](size_t n) {
        Bytes b(n, 0xee);
        Exact e(b);
        const bool fault = c.chance(1, 30);
        if (fault) {
            g_inject_fd = so.s;
            g_inject_errno = c.pick<int>({ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOTCONN, ENOBUFS});
        }
        pollute(c);
        const auto r = t->read(e.room());
        g_inject_errno = 0;
        c.note([&] { return std::format("read of up to {}: {}", n, show(r)); });
        if (fault) {
            c.label("system error");
            c.check(!r && r.error() != TErr::WantReadOrWrite && r.error() != TErr::ConnectionClosed,
                    [&] { return "a failed read is reported as: " + show(r); });
            return;
        }
        if (r) {
            const auto k = static_cast<size_t>(*r);
            c.check(*r > 0 && k <= n, [&] { return std::format("read of up to {} reports {}", n, *r); });
            c.check(k <= to_server.size() && std::equal(e.data(), e.data() + k, to_server.begin()),
                    [&] { return std::format("read returns {} octets that were not sent next", k); });
            to_server.erase(to_server.begin(), to_server.begin() + static_cast<long>(k));
            moved += k;
            return;
        }
        switch (r.error()) {
            case TErr::WantReadOrWrite:
                c.check(to_server.empty(), "would block although octets are there");
                c.check(!peer_ended && !peer_gone, "would block although the peer has ended the stream");
                break;
            case TErr::ConnectionClosed:
                c.check(to_server.empty(), "closed although octets are there");
                c.check(peer_ended || peer_gone, "closed although the peer has not ended the stream");
                c.label("end seen");
                break;
            default:
                c.check(reset, [&] { return std::string("invented failure of a read: ") + name(r.error()); });
                c.label("reset seen");
                reset = false;  // reported once
        }
    };
    auto server_writes = [&](size_t n) {
        const Bytes b = Source(from_server).take(n);
        Exact e(b);
        const bool fault = c.chance(1, 30);
        if (fault) {
            g_inject_fd = so.s;
            g_inject_errno = c.pick<int>({ECONNRESET, EPIPE, ETIMEDOUT, EHOSTUNREACH, ENOBUFS, ENETDOWN});
        }
        pollute(c);
        const auto r = t->write(e.span());
        g_inject_errno = 0;
        c.note([&] { return std::format("write of {}: {}", n, show(r)); });
        if (fault) {
            c.label("system error");
            c.check(!r && r.error() != TErr::WantReadOrWrite, [&] { return "a failed write is reported as: " + show(r); });
            return;
        }
        if (r) {
            c.check(*r > 0 && static_cast<size_t>(*r) <= n, [&] { return std::format("write of {} reports {}", n, *r); });
            c.check(!shut && !peer_gone, "a write succeeds although nobody can receive it");
            const Bytes done = from_server.take(static_cast<size_t>(*r));
            to_peer.insert(to_peer.end(), done.begin(), done.end());
            partial |= done.size() < n;
            return;
        }
        if (r.error() == TErr::WantReadOrWrite) {
            c.check(!so.server_writable(), "would block although the socket takes more");
            c.check(!shut && !peer_gone, "would block although nothing can be written any more");
            blocked = true;
        } else {
            c.check(shut || peer_gone || reset, [&] { return std::string("invented failure of a write: ") + name(r.error()); });
            c.label("failed write");
        }
    };
    for (size_t i = 0, n = 3 + c.len(60); i < n; i++) {
        switch (c.weighted({6, 6, 5, 5, 1, 1, 1, 2, 1})) {
            case 0:
                server_writes(a_size(c, 60000));
                break;
            case 1:
                server_reads(a_size(c, 40000));
                break;
            case 2:
                peer_reads(a_size(c, 60000));
                break;
            case 3:
                if (!peer_gone && !peer_ended) {
                    const Bytes b = Source(from_peer).take(a_size(c, 40000));
                    const ssize_t k = __real_write(so.p, b.data(), b.size());
                    c.note([&] { return std::format("the peer sends {}", k); });
                    if (k > 0) {
                        from_peer.take(static_cast<size_t>(k));
                        to_server.insert(to_server.end(), b.begin(), b.begin() + k);
                    }
                }
                break;
            case 4:
                if (!peer_gone && c.chance(1, 3)) {
                    c.note("the peer ends its stream");
                    shutdown(so.p, SHUT_WR);
                    peer_ended = true;
                }
                break;
            case 5:
                if (!peer_gone && c.chance(1, 3)) {
                    int unread = 0;
                    ioctl(so.p, FIONREAD, &unread);
                    c.note([&] { return std::format("the peer closes, {} unread", unread); });
                    reset = unread > 0;
                    so.close_peer();
                    peer_gone = true;
                    c.label(reset ? "closed with unread data" : "closed");
                }
                break;
            case 6:
                if (c.chance(1, 3)) {
                    c.note("graceful shutdown");
                    t->graceful_shutdown();
                    shut = true;
                    c.label("shut down");
                }
                break;
            case 7: {
                const auto r = t->handshake();
                c.check(r.has_value(), "a cleartext handshake that fails");
                break;
            }
            default:
                if (c.flip()) {
                    t = std::make_unique<ion::TcpTransport>(std::move(*t));
                } else {
                    int v[2];
                    c.check(socketpair(AF_UNIX, SOCK_STREAM, 0, v) == 0, "harness: socketpair");
                    ion::TcpTransport other{ion::SocketFd(v[0])};
                    close(v[1]);
                    other = std::move(*t);
                    t = std::make_unique<ion::TcpTransport>(std::move(other));
                }
        }
    }
    // everything accepted arrives, then the ends
    if (!peer_gone) {
        for (size_t guard = 0; !to_peer.empty() && guard < 100000; guard++) {
            peer_reads(65536);
        }
        c.check(to_peer.empty(), "octets reported as written never arrive");
        t->graceful_shutdown();
        shut = true;
        peer_reads(10);
        c.check(peer_saw_eof, "no end of stream after the shutdown");
        if (!peer_ended) {
            shutdown(so.p, SHUT_WR);
            peer_ended = true;
        }
    }
    for (size_t guard = 0; !to_server.empty() && guard < 100000; guard++) {
        server_reads(65536);
    }
    if (reset) {
        server_reads(10);
    }
    server_reads(10);
    c.label("cleartext");
    if (blocked) {
        c.label("blocked write");
    }
    if (partial) {
        c.label("partial write");
    }
    if (moved > 1000 && (blocked || partial)) {
        c.nontrivial();
    }
}

// ------------------------------------------------------------------ TLS
struct Ctx {
    tls::Pair pair;
    std::unique_ptr<ion::TlsContext> ctx;
};
static Ctx& context(const std::string& kind) {
    static std::map<std::string, Ctx> all;
    auto& x = all[kind];
    if (!x.ctx) {
        x.pair = tls::make_pair("ctx-" + kind, kind);
        x.ctx = std::make_unique<ion::TlsContext>(x.pair.cert, x.pair.key);
    }
    return x;
}

static void over_tls(Case& c) {
    Sockets so(c);
    const std::string kind = std::vector<std::string>{"ec", "rsa", "ed25519"}[c.weighted({6, 1, 2})];
    auto& cx = context(kind);
    auto t = std::make_unique<ion::TlsTransport>(ion::SocketFd(so.s), *cx.ctx);
    tls::Client::Options o;
    o.version = c.pick<int>({0, TLS1_3_VERSION, TLS1_2_VERSION});
    o.alpn.clear();
    for (size_t i = 0, n = c.len(6); i < n; i++) {
        o.alpn.push_back(c.pick<std::string>({"http/1.1", "h3", "h2c", "h2-14", "spdy/3.1", "h", "2", "h2h2", "x"}));
    }
    o.alpn.insert(o.alpn.begin() + static_cast<long>(c.u(o.alpn.size())), "h2");
    tls::Client cl(o);
    cl.pump();

    Source from_client(static_cast<uint32_t>(c.u(UINT32_MAX))), from_server(static_cast<uint32_t>(c.u(UINT32_MAX)));
    Bytes sent_c, sent_s;            // plaintext accepted from either side
    size_t read_s = 0;               // of sent_c, read by the server
    Bytes cipher;                    // from the client, to be relayed
    size_t relayed = 0;
    struct Rec {
        size_t cipher_end, plain_end;
    };
    std::vector<Rec> records;
    size_t notify_end = SIZE_MAX;    // ciphertext offset after the client's close_notify
    size_t corrupt_at = SIZE_MAX;    // ciphertext offset of an altered octet
    bool told = true;                // the close_notify of the server found room
    bool handshaken = false, eof = false, gone = false, shut = false, broken = false, end_seen = false;
    Bytes blocked;                   // a write to be retried
    size_t blocked_times = 0, garbage = 0;
    auto collect = [&] {
        const Bytes b = cl.take();
        cipher.insert(cipher.end(), b.begin(), b.end());
    };
    collect();
    auto delivered_corrupt = [&] { return corrupt_at < relayed; };
    auto relay = [&](size_t n) {  // client -> server
        if (gone || eof) {
            return;
        }
        n = std::min(n, cipher.size() - relayed);
        if (n == 0) {
            return;
        }
        const ssize_t k = __real_write(so.p, cipher.data() + relayed, n);
        if (k > 0) {
            relayed += static_cast<size_t>(k);
        }
    };
    auto back = [&](size_t n) {  // server -> client
        if (gone) {
            return false;
        }
        Bytes b(n);
        const ssize_t k = __real_read(so.p, b.data(), n);
        if (k <= 0) {
            return false;
        }
        b.resize(static_cast<size_t>(k));
        const bool was = cl.connected;
        cl.receive(b);
        collect();
        if (!was && cl.connected) {
            c.check(cl.alpn == "h2", [&] { return "negotiated " + quote(cl.alpn) + " with a client that offers h2"; });
            X509* x = SSL_get0_peer_certificate(cl.raw());
            const auto p = x ? tls::pem([&](BIO* bio) { PEM_write_bio_X509(bio, x); }) : "none";
            c.check(p == cx.pair.cert_pem, "another certificate is presented");
        }
        const size_t m = cl.received.size();
        const Bytes& r = cl.received;
        for (size_t i = 0; i < m; i++) {
            const bool known = i < sent_s.size() || i - sent_s.size() < blocked.size();
            c.check(known && r[i] == (i < sent_s.size() ? sent_s[i] : blocked[i - sent_s.size()]),
                    [&] { return std::format("the client receives something else at octet {}", i); });
        }
        return true;
    };
    auto server_handshake = [&] {
        pollute(c);
        const auto r = t->handshake();
        c.note([&] { return std::string("handshake: ") + (r ? "done" : name(r.error())); });
        if (r) {
            handshaken = true;
            c.check(garbage == 0, "a handshake is complete although the peer does not speak TLS");
        } else if (r.error() == TErr::WantReadOrWrite) {
            int unread = 0;
            ioctl(so.s, FIONREAD, &unread);
            c.check(!((eof || gone) && unread == 0), "a handshake would block although the peer has ended the stream");
        } else {
            c.check(eof || gone || garbage || delivered_corrupt(), [&] { return std::string("invented failure of a handshake: ") + name(r.error()); });
            c.check(r.error() != TErr::ConnectionClosed || eof || gone, "a handshake reports closed although the peer has not ended the stream");
            broken = true;
            c.label("handshake failed");
        }
    };
    auto server_reads = [&](size_t n) {
        Bytes b(n, 0xee);
        Exact e(b);
        pollute(c);
        const auto r = t->read(e.room());
        c.note([&] { return std::format("read of up to {}: {}", n, show(r)); });
        if (r) {
            const auto k = static_cast<size_t>(*r);
            c.check(*r > 0 && k <= n, [&] { return std::format("read of up to {} reports {}", n, *r); });
            c.check(read_s + k <= sent_c.size() && std::equal(e.data(), e.data() + k, sent_c.begin() + static_cast<long>(read_s)),
                    "read returns octets that were not sent next");
            read_s += k;
            for (auto& rec : records) {
                if (corrupt_at < rec.cipher_end) {
                    c.check(read_s <= (&rec == records.data() ? 0 : (&rec)[-1].plain_end), "read returns octets of an altered record");
                    break;
                }
            }
            c.check(!end_seen, "octets after the end");
            return;
        }
        size_t available = 0;  // readable plaintext in all
        for (auto& rec : records) {
            if (rec.cipher_end <= relayed && rec.cipher_end <= corrupt_at) {
                available = rec.plain_end;
            }
        }
        switch (r.error()) {
            case TErr::WantReadOrWrite: {
                c.check(read_s >= available, "would block although a whole record is there");
                c.check(!broken, "would block after a failure");
                int unread = 0;
                ioctl(so.s, FIONREAD, &unread);
                c.check(!((eof || gone) && unread == 0), "would block although the peer has ended the stream");
                c.check(notify_end > relayed || delivered_corrupt(), "would block although the peer has closed");
                break;
            }
            case TErr::ConnectionClosed:
                c.check(notify_end <= relayed && read_s == sent_c.size(), "closed although the peer has not closed");
                end_seen = true;
                c.label("close_notify seen");
                break;
            default:
                c.check(eof || gone || delivered_corrupt() || broken, [&] { return std::string("invented failure of a read: ") + name(r.error()); });
                c.check(read_s >= available || broken || gone, "a failure hides octets that arrived before it");
                c.label(delivered_corrupt() ? "altered record refused" : "truncation seen");
                broken = true;
        }
    };
    auto server_writes = [&] {
        Bytes b = blocked.empty() ? Source(from_server).take(a_size(c, 70000)) : blocked;
        // a retry comes from the same place
        static Bytes place;
        if (blocked.empty()) {
            place = b;
        }
        pollute(c);
        const auto r = t->write(place);
        c.note([&] { return std::format("write of {}: {}", place.size(), show(r)); });
        if (r) {
            c.check(*r > 0 && static_cast<size_t>(*r) <= b.size(), [&] { return std::format("write of {} reports {}", b.size(), *r); });
            c.check(!shut, "a write succeeds after the shutdown");
            const Bytes done = from_server.take(static_cast<size_t>(*r));
            sent_s.insert(sent_s.end(), done.begin(), done.end());
            blocked.assign(b.begin() + *r, b.end());  // the rest is to be written next
            place = blocked;
            return;
        }
        if (r.error() == TErr::WantReadOrWrite) {
            c.check(!so.server_writable(), "would block although the socket takes more");
            c.check(!gone, "would block although nothing can be written any more");
            blocked = b;
            blocked_times++;
        } else {
            c.check(gone || broken || shut, [&] { return std::string("invented failure of a write: ") + name(r.error()); });
            blocked.clear();
            broken = true;
            c.label("failed write");
        }
    };
    const bool plain_garbage = c.chance(1, 12);
    if (plain_garbage) {
        cipher = c.flip() ? c.bytes(1 + c.len(200)) : Bytes{};
        if (cipher.empty()) {
            const std::string s = c.pick<std::string>({"GET / HTTP/1.1\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"});
            cipher.assign(s.begin(), s.end());
        }
        garbage = cipher.size();
        c.label("not TLS");
    }
    const size_t style = c.u(2);
    auto some = [&] { return style == 0 ? size_t{100000} : style == 1 ? a_size(c, 3000) : a_size(c, 200); };
    for (size_t i = 0, n = 5 + c.len(80); i < n && !broken; i++) {
        switch (c.weighted({5, 5, 5, 4, 4, 1, 1, 1})) {
            case 0:
                relay(some());
                break;
            case 1:
                back(some());
                break;
            case 2:
                if (!handshaken) {
                    server_handshake();
                } else if (!shut) {  // nothing is read after the shutdown
                    server_reads(a_size(c, 40000));
                }
                break;
            case 3:
                if (handshaken && !shut) {
                    server_writes();
                } else if (!handshaken) {
                    server_handshake();
                }
                break;
            case 4:
                if (cl.connected && notify_end == SIZE_MAX && !garbage && !eof && !cl.failed) {
                    const Bytes b = from_client.take(a_size(c, 16384));
                    c.check(cl.send(b), "harness: client write");
                    collect();
                    sent_c.insert(sent_c.end(), b.begin(), b.end());
                    records.push_back({cipher.size(), sent_c.size()});
                }
                break;
            case 5:
                if (c.flip()) {
                    t = std::make_unique<ion::TlsTransport>(std::move(*t));
                } else {
                    int v[2];
                    c.check(socketpair(AF_UNIX, SOCK_STREAM, 0, v) == 0, "harness: socketpair");
                    ion::TlsTransport other{ion::SocketFd(v[0]), *cx.ctx};
                    close(v[1]);
                    other = std::move(*t);
                    t = std::make_unique<ion::TlsTransport>(std::move(other));
                }
                c.label("moved");
                break;
            case 6: {
                const auto what = c.u(3);
                if (what == 0 && cl.connected && handshaken && notify_end == SIZE_MAX && corrupt_at == SIZE_MAX && !garbage) {
                    cl.close_notify();
                    collect();
                    notify_end = cipher.size();
                    c.note("the client closes");
                } else if (what == 1 && c.chance(1, 3) && !eof && !gone) {
                    shutdown(so.p, SHUT_WR);
                    eof = true;
                    cipher.resize(relayed);
                    if (notify_end > relayed) {
                        notify_end = SIZE_MAX;
                    }
                    std::erase_if(records, [&](auto& x) { return x.cipher_end > relayed; });
                    c.note("the stream from the client ends");
                } else if (what == 2 && c.chance(1, 3) && !gone) {
                    so.close_peer();
                    gone = true;
                    c.note("the client is gone");
                } else if (what == 3 && handshaken && corrupt_at == SIZE_MAX && notify_end == SIZE_MAX && cipher.size() > relayed) {
                    corrupt_at = relayed + c.u(cipher.size() - relayed - 1);
                    cipher[corrupt_at] ^= static_cast<uint8_t>(1u << c.u(7));
                    c.note([&] { return std::format("octet {} is altered", corrupt_at); });
                }
                break;
            }
            default:
                if (handshaken && !shut && blocked.empty() && c.chance(1, 3)) {
                    c.note("graceful shutdown");
                    told = so.server_writable();
                    t->graceful_shutdown();
                    shut = true;
                    c.label("shut down");
                }
        }
    }
    // bring it to its end: everything accepted arrives
    if (!broken && !garbage && corrupt_at == SIZE_MAX && !eof && !gone) {
        for (size_t idle = 0, guard = 0; idle < 3 && guard < 100000; guard++) {
            const size_t a = relayed, b = cl.received.size(), d = read_s;
            const bool h = handshaken, bl = blocked.empty();
            relay(SIZE_MAX);
            if (!handshaken) {
                server_handshake();
            } else if (!end_seen && !shut) {
                server_reads(65536);
            }
            if (handshaken && !blocked.empty()) {
                server_writes();
            }
            const bool moved = back(65536);
            idle = moved || a != relayed || b != cl.received.size() || d != read_s || h != handshaken || bl != blocked.empty() ? 0 : idle + 1;
            if (broken) {
                break;
            }
        }
        c.check(!broken, "a transport fails although nothing has happened to it");
        c.check(handshaken && cl.connected, "the handshake does not complete");
        c.check(shut || read_s == sent_c.size(), [&] { return std::format("{} of {} octets arrive at the server", read_s, sent_c.size()); });
        c.check(blocked.empty() && cl.received == sent_s, [&] { return std::format("{} of {} octets arrive at the client", cl.received.size(), sent_s.size()); });
        c.check(shut || end_seen == (notify_end != SIZE_MAX), "the client's closure is not reported");
        if (!shut) {
            t->graceful_shutdown();
            back(65536);
        }
        c.check(cl.ended || !told, "the client does not see an orderly closure after the shutdown");
        c.check(!cl.failed, "the client sees a failure");
        c.label("complete exchange");
    } else if (garbage) {
        relay(SIZE_MAX);
        for (int i = 0; i < 3 && !broken; i++) {
            server_handshake();
        }
        if (!eof && !gone) {
            shutdown(so.p, SHUT_WR);
            eof = true;
        }
        for (int i = 0; i < 3 && !broken; i++) {
            server_handshake();
        }
        c.check(broken, "a handshake goes on after garbage and the end of the stream");
    } else if (!broken && handshaken && !shut && (eof || gone || corrupt_at != SIZE_MAX)) {
        for (int i = 0; i < 200 && !broken && !end_seen; i++) {
            relay(SIZE_MAX);
            back(65536);
            server_reads(65536);
        }
    } else if (!broken && !handshaken && (eof || gone)) {
        for (int i = 0; i < 5 && !broken && !handshaken; i++) {
            server_handshake();
        }
    }
    c.label("TLS");
    c.label("certificate " + kind);
    if (blocked_times) {
        c.label("blocked TLS write");
    }
    if (handshaken && (read_s > 0 || !sent_s.empty())) {
        c.nontrivial();
    }
    ERR_clear_error();
}

// ------------------------------------------------------------------ certificate files
static void files(Case& c) {
    static const std::vector<tls::Pair> pairs{tls::make_pair("f-ec", "ec"), tls::make_pair("f-ec2", "ec"), tls::make_pair("f-rsa", "rsa"),
                                              tls::make_pair("f-rsa2", "rsa"), tls::make_pair("f-ed", "ed25519"), tls::make_pair("f-ed2", "ed25519")};
    const size_t a = c.u(pairs.size() - 1);
    const size_t b = c.chance(2, 3) ? a : c.u(pairs.size() - 1);
    bool ok = a == b;
    std::string cert = tls::scratch() + "/c.pem", key = tls::scratch() + "/k.pem";
    auto content = [&](bool is_cert) -> std::string {
        const std::string& own = is_cert ? pairs[a].cert_pem : pairs[b].key_pem;
        const std::string& other = is_cert ? pairs[b].key_pem : pairs[a].cert_pem;
        switch (c.weighted({12, 1, 1, 1, 1, 1, 1, 1})) {
            case 0:
                return own;
            case 1:
                ok = false;
                return "";
            case 2:
                ok = false;
                return c.binstr(c.len(400));
            case 3:
                ok = false;
                return own.substr(0, c.u(own.rfind("-----END") - 1));
            case 4:
                ok = false;
                return other;
            case 5:
                c.label("both in one file");
                return c.flip() ? own + other : other + own;
            case 6:
                c.label("text around");
                return "Some text\n" + own + "more text\n";
            default: {  // the markers are there, what is between them is not
                ok = false;
                const auto from = own.find('\n'), to = own.rfind("-----END");
                return own.substr(0, from + 1) + c.str(c.len(100), "AQgw+/") + "\n" + own.substr(to);
            }
        }
    };
    auto place = [&](std::string& name, bool is_cert) {
        unlink(name.c_str());
        rmdir(name.c_str());
        switch (c.weighted({14, 1, 1, 1})) {
            case 0:
                tls::put_file(name, content(is_cert));
                break;
            case 1:
                ok = false;
                break;
            case 2:
                ok = false;
                mkdir(name.c_str(), 0755);
                break;
            default:
                ok = false;
                name = "";
        }
    };
    const std::string cn = cert, kn = key;
    place(cert, true);
    place(key, false);
    if (a != b) {
        c.label("mismatched");
    }
    bool threw = false;
    std::string what;
    pollute(c);
    try {
        const ion::TlsContext ctx{cert, key};
        SSL* s = ctx.create_ssl();
        c.check(s != nullptr, "no SSL object");
        SSL_free(s);
    } catch (const std::exception& e) {
        threw = true;
        what = e.what();
    }
    ERR_clear_error();
    c.check(threw == !ok, [&] { return ok ? "good certificate files are refused: " + what : std::string("unusable certificate files are accepted"); });
    unlink(cn.c_str());
    rmdir(cn.c_str());
    unlink(kn.c_str());
    rmdir(kn.c_str());
    c.label(ok ? "good files" : "bad files");
    if (!ok) {
        c.nontrivial();
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    g_inject_errno = 0;
    switch (c.weighted({6, 4, 1})) {
        case 0:
            return tcp(c);
        case 1:
            return over_tls(c);
        default:
            return files(c);
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    Property p{.id = "C29",
               .rule = "socket pairs with small buffers; reads, writes, shutdowns, closes and moves on both "
                       "ends in any order; TLS by a real client whose records are delivered in fragments, "
                       "cut off or altered; good and bad certificate files; non-trivial = over 1000 octets "
                       "with a blocked or partial write, TLS with data exchanged, or bad files",
               .fn = prop};
    p.quick_cases = 120000;
    p.thorough_cases = 100000000;
    p.required_labels = {"cleartext",     "partial write",     "blocked write",    "end seen",        "reset seen",
                         "shut down",     "failed write",      "system error",     "TLS",             "blocked TLS write",
                         "certificate ec", "certificate rsa",  "certificate ed25519", "not TLS",      "handshake failed",
                         "close_notify seen", "truncation seen", "altered record refused", "complete exchange",
                         "good files",    "bad files",         "mismatched",       "both in one file", "moved"};
    return run_main(argc, argv, p);
}
