// C28: a socket handle owns its descriptor exactly once.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#include <optional>

#include "ion_util.h"
#include "socket_fd.h"
#include "tls.h"
#include "transports/tcp_transport.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"

using namespace pbt;
using ion::SocketFd;

static bool g_watch = false;
static std::vector<int> g_closed;
static bool g_fake_peer = false;
static sockaddr_storage g_peer;
static socklen_t g_peer_len = 0;
static int g_peer_errno = 0;

extern "C" {
int __real_close(int);
int __wrap_close(int fd) {
    if (g_watch) {
        g_closed.push_back(fd);
    }
    return __real_close(fd);
}
int __real_getpeername(int, sockaddr*, socklen_t*);
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* n) {
    if (!g_fake_peer) {
        return __real_getpeername(fd, a, n);
    }
    if (g_peer_errno) {
        errno = g_peer_errno;
        return -1;
    }
    memcpy(a, &g_peer, std::min(*n, g_peer_len));
    *n = g_peer_len;
    return 0;
}
}

// what the model knows of one descriptor
struct Desc {
    int fd;
    ino_t ino;
};

// an owner of any kind
struct Owner {
    enum Kind { Plain, Optional, Tcp, Tls } kind = Plain;
    std::unique_ptr<SocketFd> plain;
    std::optional<SocketFd> opt;
    std::unique_ptr<ion::TcpTransport> tcp;
    std::unique_ptr<ion::TlsTransport> tls;
    std::optional<Desc> owns;
    bool exists = true;
    SocketFd* handle() {
        return kind == Plain ? plain.get() : kind == Optional && opt ? &*opt : nullptr;
    }
};

static ino_t inode(int fd) {
    struct stat st;
    return fstat(fd, &st) == 0 ? st.st_ino : 0;
}

static void addresses(Case& c, SocketFd& h) {
    g_fake_peer = true;
    memset(&g_peer, 0, sizeof g_peer);
    g_peer_errno = 0;
    std::string want4, want6;
    const auto kind = c.weighted({4, 4, 1, 1});
    if (kind == 0) {
        auto* s = reinterpret_cast<sockaddr_in*>(&g_peer);
        s->sin_family = AF_INET;
        s->sin_port = static_cast<uint16_t>(c.u(65535));
        s->sin_addr.s_addr = htonl(c.flip() ? static_cast<uint32_t>(c.u(UINT32_MAX)) : c.pick<uint32_t>({0, UINT32_MAX, 0x7f000001, 0x0a000100}));
        g_peer_len = sizeof(sockaddr_in);
    } else if (kind == 1) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&g_peer);
        s->sin6_family = AF_INET6;
        s->sin6_port = static_cast<uint16_t>(c.u(65535));
        const Bytes b = c.flip() ? c.bytes(16) : Bytes(16, c.flip() ? 0 : 0xff);
        memcpy(&s->sin6_addr, b.data(), 16);
        if (c.chance(1, 4)) {
            memset(&s->sin6_addr, 0, 10 + c.u(3));
        }
        s->sin6_scope_id = static_cast<uint32_t>(c.chance(1, 8));
        g_peer_len = sizeof(sockaddr_in6);
    } else if (kind == 2) {
        g_peer.ss_family = AF_UNIX;
        g_peer_len = 2;
    } else {
        g_peer_errno = c.pick<int>({ENOTCONN, EBADF, ENOTSOCK, ENOBUFS, EINVAL});
    }
    const auto r = h.client_ip();
    g_fake_peer = false;
    c.note([&] { return "client_ip: " + (r ? *r : "error"); });
    if (kind >= 2) {
        c.check(!r, [&] { return "an address where there is none: " + *r; });
        c.label("no peer address");
        return;
    }
    c.check(r.has_value(), "no address although the peer has one");
    c.check(r->find('\0') == std::string::npos, "the address holds a null character");
    if (kind == 0) {
        in_addr a;
        c.check(inet_pton(AF_INET, r->c_str(), &a) == 1 && a.s_addr == reinterpret_cast<sockaddr_in*>(&g_peer)->sin_addr.s_addr,
                [&] { return "IPv4 address " + *r; });
        c.label("IPv4");
    } else {
        in6_addr a;
        auto& want = reinterpret_cast<sockaddr_in6*>(&g_peer)->sin6_addr;
        std::string text = r->substr(0, r->find('%'));
        if (IN6_IS_ADDR_V4MAPPED(&want) && text.find(':') == std::string::npos) {
            text = "::ffff:" + text;
        }
        c.check(inet_pton(AF_INET6, text.c_str(), &a) == 1 && memcmp(&a, &want, 16) == 0, [&] { return "IPv6 address " + *r; });
        c.label("IPv6");
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    static ion::TlsContext* ctx = new ion::TlsContext(tls::server_pair().cert, tls::server_pair().key);
    std::vector<std::unique_ptr<Owner>> owners;
    std::vector<Desc> live;      // owned by some owner
    std::vector<int> released;   // made by the harness, not owned
    size_t moves = 0, closes = 0;
    auto fresh = [&]() -> Desc {
        const int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        c.check(fd >= 0, "harness: socket");
        return {fd, inode(fd)};
    };
    // runs code under test that must close exactly `expect`
    auto run = [&](const std::string& what, std::vector<int> expect, auto&& f) {
        g_closed.clear();
        g_watch = true;
        f();
        g_watch = false;
        std::vector<int> got;
        for (int x : g_closed) {
            if (x >= 0) {
                got.push_back(x);
            }
        }
        closes += expect.size();
        auto list = [](const std::vector<int>& v) {
            std::string s = "[";
            for (int x : v) {
                s += std::format(" {}", x);
            }
            return s + " ]";
        };
        c.note([&] { return what + " closes " + list(got); });
        std::sort(got.begin(), got.end());
        std::sort(expect.begin(), expect.end());
        c.check(got == expect, [&] { return std::format("{} closes {} instead of {}", what, list(got), list(expect)); });
        for (int x : expect) {
            std::erase_if(live, [&](auto& d) { return d.fd == x; });
        }
        for (auto& d : live) {
            c.check(inode(d.fd) == d.ino, [&] { return std::format("{} closes descriptor {}, which is still owned", what, d.fd); });
        }
    };
    auto one = [](const std::optional<Desc>& d) { return d ? std::vector<int>{d->fd} : std::vector<int>{}; };
    auto verify = [&] {
        for (auto& o : owners) {
            if (SocketFd* h = o->handle()) {
                const int v = *h;
                c.check(o->owns ? v == o->owns->fd : v < 0, [&] { return std::format("a handle says {} and owns {}", v, o->owns ? o->owns->fd : -1); });
            }
        }
    };
    auto make = [&] {
        auto o = std::make_unique<Owner>();
        o->kind = static_cast<Owner::Kind>(c.weighted({6, 2, 2, c.chance(1, 4) ? 1u : 0u}));
        const bool empty = o->kind <= Owner::Optional && c.chance(1, 5);
        Desc d{-1, 0};
        if (!empty) {
            d = fresh();
            live.push_back(d);
            o->owns = d;
        }
        run(std::format("creating an owner of {}", d.fd), {}, [&] {
            switch (o->kind) {
                case Owner::Plain:
                    o->plain = empty && c.flip() ? std::make_unique<SocketFd>() : std::make_unique<SocketFd>(d.fd);
                    break;
                case Owner::Optional:
                    o->opt.emplace(d.fd);
                    break;
                case Owner::Tcp:
                    o->tcp = std::make_unique<ion::TcpTransport>(SocketFd(d.fd));
                    break;
                case Owner::Tls:
                    o->tls = std::make_unique<ion::TlsTransport>(SocketFd(d.fd), *ctx);
                    c.label("TLS transport");
                    break;
            }
        });
        owners.push_back(std::move(o));
    };
    make();
    for (size_t i = 0, n = 3 + c.len(40); i < n; i++) {
        if (owners.empty()) {
            make();
        }
        const size_t ai = c.u(owners.size() - 1), bi = c.u(owners.size() - 1);
        Owner &a = *owners[ai], &b = *owners[bi];
        switch (c.weighted({4, 3, 7, 2, 3, 2, 2, 1})) {
            case 0:
                if (owners.size() < 12) {
                    make();
                }
                break;
            case 1: {  // moved into a new one
                auto o = std::make_unique<Owner>();
                o->kind = a.kind;
                moves++;
                run("moving out", {}, [&] {
                    switch (a.kind) {
                        case Owner::Plain:
                            o->plain = std::make_unique<SocketFd>(std::move(*a.plain));
                            break;
                        case Owner::Optional:
                            o->opt.emplace(std::move(*a.opt));
                            break;
                        case Owner::Tcp:
                            o->tcp = std::make_unique<ion::TcpTransport>(std::move(*a.tcp));
                            break;
                        case Owner::Tls:
                            o->tls = std::make_unique<ion::TlsTransport>(std::move(*a.tls));
                            break;
                    }
                });
                o->owns = std::exchange(a.owns, std::nullopt);
                owners.push_back(std::move(o));
                break;
            }
            case 2: {  // move-assigned, perhaps to itself
                SocketFd *ha = a.handle(), *hb = b.handle();
                const bool self = ai == bi;
                moves++;
                if (self) {
                    c.label("self assignment");
                }
                const auto expect = self ? std::vector<int>{} : one(a.owns);
                if (ha && hb) {
                    run(std::format("move-assigning {} to {}", bi, ai), expect, [&] { *ha = std::move(*hb); });
                } else if (a.kind == b.kind && a.kind == Owner::Tcp) {
                    run("move-assigning a TCP transport", expect, [&] { *a.tcp = std::move(*b.tcp); });
                    c.label("transport assigned");
                } else if (a.kind == b.kind && a.kind == Owner::Tls) {
                    run("move-assigning a TLS transport", expect, [&] { *a.tls = std::move(*b.tls); });
                } else {
                    break;
                }
                if (!self) {
                    a.owns = std::exchange(b.owns, std::nullopt);
                }
                break;
            }
            case 3:
                if (SocketFd* h = a.handle()) {
                    run("close", one(a.owns), [&] { h->close(); });
                    a.owns.reset();
                    if (c.chance(1, 3)) {
                        run("close again", {}, [&] { h->close(); });
                    }
                }
                break;
            case 4:
                run("destroying an owner", one(a.owns), [&] { owners.erase(owners.begin() + static_cast<long>(ai)); });
                break;
            case 5: {
                SocketFd *ha = a.handle(), *hb = b.handle();
                if (ha && hb && ai != bi) {
                    run("swap", {}, [&] { std::swap(*ha, *hb); });
                    std::swap(a.owns, b.owns);
                }
                break;
            }
            case 6: {  // through a growing and shrinking vector
                std::vector<SocketFd> v;
                std::vector<std::optional<Desc>> m;
                for (size_t k = 0, len = 1 + c.u(6); k < len; k++) {
                    if (c.chance(1, 5)) {
                        m.push_back(std::nullopt);
                        run("growing a vector", {}, [&] { v.emplace_back(); });
                    } else {
                        const Desc d = fresh();
                        live.push_back(d);
                        m.push_back(d);
                        run("growing a vector", {}, [&] { v.push_back(SocketFd(d.fd)); });
                    }
                }
                const size_t at = c.u(v.size() - 1);
                run("erasing from a vector", one(m[at]), [&] { v.erase(v.begin() + static_cast<long>(at)); });
                m.erase(m.begin() + static_cast<long>(at));
                std::vector<int> rest;
                for (auto& x : m) {
                    if (x) {
                        rest.push_back(x->fd);
                    }
                }
                run("destroying a vector", rest, [&] { std::vector<SocketFd>().swap(v); });
                c.label("in a vector");
                break;
            }
            default:
                if (SocketFd* h = a.handle()) {
                    run("client_ip", {}, [&] { addresses(c, *h); });
                }
        }
        verify();
        // a descriptor number that was closed comes back for something else, and stays its own
        if (c.chance(1, 4)) {
            const int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
            released.push_back(fd);
        }
        for (int fd : released) {
            c.check(fcntl(fd, F_GETFD) >= 0, [&] { return std::format("descriptor {} of someone else was closed", fd); });
        }
    }
    std::vector<int> rest;
    for (auto& o : owners) {
        if (o->owns) {
            rest.push_back(o->owns->fd);
        }
    }
    run("destroying everything", rest, [&] { owners.clear(); });
    for (int fd : released) {
        close(fd);
    }
    if (moves >= 2 && closes >= 2) {
        c.nontrivial();
    }
}

static void leave() {
    g_watch = false;
}

int main(int argc, char** argv) {
    Property p{.id = "C28",
               .rule = "histories of creating, moving, move-assigning (to itself too), swapping, closing and "
                       "destroying handles, optionals, vectors and transports of both kinds; every close is "
                       "intercepted and compared with an ownership model, which also checks by inode that what "
                       "is owned stays open; peer addresses of all families; non-trivial = two moves and two closes",
               .fn = [](Case& c) {
                   leave();
                   prop(c);
               }};
    p.quick_cases = 1000000;
    p.thorough_cases = 100000000;
    p.required_labels = {"IPv4", "IPv6", "no peer address", "self assignment", "in a vector", "TLS transport", "transport assigned"};
    return run_main(argc, argv, p);
}
