// ion::Http2Server on a simulated network and clock, in one thread: the system calls it makes are
// linked to the functions below (-Wl,--wrap), connections are socket pairs, and everything clients do
// happens inside the server's wait for events, by a script drawn from the case.
#pragma once
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#include <deque>
#include <set>

#include "clock.h"
#include "conn.h"
#include "http2_server.h"
#include "tls.h"

extern "C" {
int __real_close(int);
int __real_socket(int, int, int);
int __real_bind(int, const sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, sockaddr*, socklen_t*);
int __real_accept4(int, sockaddr*, socklen_t*, int);
int __real_getpeername(int, sockaddr*, socklen_t*);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_epoll_create1(int);
int __real_epoll_ctl(int, int, int, epoll_event*);
int __real_epoll_wait(int, epoll_event*, int, int);
int __real_poll(pollfd*, nfds_t, int);
}

namespace sim {
using pbt::Bytes;
using pbt::Case;
using ns = std::chrono::nanoseconds;
using namespace std::chrono_literals;

// one connection, from the client's connect on
struct Link {
    size_t id = 0;
    int client = -1;   // the client's end
    int held = -1;     // the server's end until it is accepted
    int server = -1;   // the descriptor the server was given
    bool accepted = false, dropped = false /* by a failing accept */, closed = false;
    size_t open_before = 0;  // connections the server had open when it accepted this one
    ns accepted_at{}, closed_at{}, active_lo{}, active_hi{};
    size_t taken = 0, given = 0;  // octets the server took from and gave to the socket
    int in_mark = 0, out_mark = 0;
    struct Move {
        ns lo, hi;  // when
        size_t taken, given;
    };
    std::vector<Move> history;  // totals after each iteration that moved something
    size_t accepted_wait = 0;
};

struct World {
    Case& c;
    explicit World(Case& cc) : c(cc) {
        for (int i = 0; i < 64; i++) {
            if (fcntl(i, F_GETFD) >= 0) {
                foreign.insert(i);
            }
        }
    }
    World(const World&) = delete;
    ~World();

    std::function<void()> step;  // what happens while the server waits
    std::function<void(Link*)> on_accept, on_close;
    std::vector<std::unique_ptr<Link>> links;
    std::deque<Link*> pending;
    struct AcceptError {
        int err;
        bool consumes;
    };
    std::deque<AcceptError> accept_errors;
    int shortage = 0;            // nothing can be accepted as long as this error is set
    std::set<int> foreign;       // descriptors that are not the server's to close
    int listener = -1, poke = -1;
    bool poked = false, listener_closed = false, listening = false;
    uint16_t port = 0;
    size_t waits = 0, accepts = 0, timeouts = 0, max_open = 0, rejected_unserved = 0;
    size_t closes_of_listener = 0;
    ns idle_advance = 100us;     // per wait without events
    bool interrupt = false;      // the next wait ends with EINTR
    int few = 0;                 // at most so many events per wait, if set
    bool shuffle = true;
    bool plant = false;          // numbers of closed descriptors are taken over by sentinels
    bool peer_fails = false, option_fails = false, bind_fails = false, listen_fails = false;
    // the next of these calls that sets the server up fails with this error
    enum class Setup { None, Socket, Option, Bind, Listen, Create, Add } setup_fails = Setup::None;
    int setup_error = 0;
    bool setup_failed = false;
    // connections of an earlier server linger on the port; it can be had only with SO_REUSEADDR
    bool lingering = false, reuse_address = false;
    bool any_address = false;    // bound to every local address
    bool fails(Setup s) {
        if (setup_fails != s) {
            return false;
        }
        setup_fails = Setup::None;
        setup_failed = true;
        errno = setup_error;
        return true;
    }
    int longest = 0;             // timeout the server asked for, in ms; -1 is forever
    int asked_last = 0;          // the timeout of the latest wait
    int add_fails = 0;           // so many additions to the poller fail
    size_t add_fails_seen = 0;
    size_t max_waits = 200000;
    std::string trouble;         // found where nothing can be thrown
    struct Sentinel {
        int fd, other;
    };
    std::vector<Sentinel> sentinels;
    std::map<int, Link*> numbers;  // of accepted connections
    bool sample_all = true;      // otherwise only connections an event was delivered for
    std::vector<Link*> touched;  // those, and the ones accepted since
    ns last_wait{};              // virtual time when the last wait returned
    bool harness = true;         // the harness itself is running

    void wrong(const std::string& s) {
        if (trouble.empty()) {
            trouble = s;
        }
    }
    Link* connect(int server_buffer = 0, int client_buffer = 0) {
        int v[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, v) != 0) {
            c.fail("harness: socketpair");
        }
        auto l = std::make_unique<Link>();
        l->id = links.size();
        l->client = high(v[0]);
        l->held = high(v[1]);
        fcntl(l->client, F_SETFL, O_NONBLOCK);
        foreign.insert(l->client);
        foreign.insert(l->held);
        if (server_buffer) {
            __real_setsockopt(l->held, SOL_SOCKET, SO_SNDBUF, &server_buffer, sizeof server_buffer);
        }
        if (client_buffer) {
            __real_setsockopt(l->client, SOL_SOCKET, SO_SNDBUF, &client_buffer, sizeof client_buffer);
        }
        links.push_back(std::move(l));
        pending.push_back(links.back().get());
        return links.back().get();
    }
    // moved out of the way of the numbers the server gets
    static int high(int fd) {
        const int h = fcntl(fd, F_DUPFD_CLOEXEC, 600);
        __real_close(fd);
        return h;
    }
    void client_close(Link& l) {
        if (l.client >= 0) {
            foreign.erase(l.client);
            __real_close(l.client);
            l.client = -1;
        }
    }
    size_t open() const {
        return static_cast<size_t>(std::count_if(numbers.begin(), numbers.end(), [](auto& x) { return !x.second->closed; }));
    }
    // closed in the iteration they were accepted in, with all places taken
    size_t rejected() const {
        return static_cast<size_t>(std::count_if(links.begin(), links.end(), [](auto& l) { return l->accepted && l->open_before >= 128; }));
    }
    static int unread(int fd) {
        int n = 0;
        return fd >= 0 && ioctl(fd, FIONREAD, &n) == 0 ? n : 0;
    }
    void mark(Link& l) {
        l.in_mark = l.accepted && !l.closed ? unread(l.server) : 0;
        l.out_mark = unread(l.client);
    }
    // what the server moved since the mark
    void sample(Link& l) {
        if (!l.accepted || l.closed) {
            return;
        }
        const int in = unread(l.server), out = unread(l.client);
        if (in < l.in_mark || out > l.out_mark) {
            l.taken += static_cast<size_t>(std::max(0, l.in_mark - in));
            l.given += static_cast<size_t>(std::max(0, out - l.out_mark));
            l.active_lo = last_wait;
            l.active_hi = vclock::now;
            l.history.push_back({l.active_lo, l.active_hi, l.taken, l.given});
        }
        l.in_mark = in;
        l.out_mark = out;
    }
    void sync_listener() {
        const bool want = listening && !listener_closed && (!pending.empty() || !accept_errors.empty());
        uint8_t b = 1;
        if (want && !poked) {
            (void)!::send(poke, &b, 1, MSG_NOSIGNAL);
        } else if (!want && poked && !listener_closed) {
            (void)!::recv(listener, &b, 1, MSG_DONTWAIT);
        }
        poked = want;
    }
    void release_sentinels() {
        for (auto& s : sentinels) {
            uint8_t b[4];
            const auto n = ::recv(s.fd, b, sizeof b, MSG_DONTWAIT);
            const auto m = ::recv(s.other, b, sizeof b, MSG_DONTWAIT);
            if (n != 1) {
                wrong(std::format("descriptor {} is read after it was closed", s.fd));
            }
            if (m >= 0) {
                wrong(std::format("descriptor {} is written or shut down after it was closed", s.fd));
            }
            foreign.erase(s.fd);
            foreign.erase(s.other);
            __real_close(s.fd);
            __real_close(s.other);
        }
        sentinels.clear();
    }
    // at the beginning of every wait
    void enter() {
        harness = true;
        waits++;
        for (auto* l : touched) {
            sample(*l);
        }
        for (auto& l : links) {
            if (!sample_all) {
                break;
            }
            sample(*l);
            if (l->accepted && !l->closed && fcntl(l->server, F_GETFD) < 0) {
                wrong(std::format("descriptor {} of a connection is gone without being closed", l->server));
            }
        }
        release_sentinels();
        if (!trouble.empty()) {
            c.fail(trouble);
        }
        if (waits > max_waits) {
            c.fail("the server goes on and on");
        }
        if (step) {
            step();
        }
        sync_listener();
    }
    void leave(bool idle) {
        if (idle) {
            timeouts++;
            vclock::advance(idle_advance);
        }
        if (sample_all) {
            for (auto& l : links) {
                mark(*l);
            }
        }
        last_wait = vclock::now;
        harness = false;
    }
    void asked(int timeout) {
        asked_last = timeout;
        longest = timeout < 0 || longest < 0 ? -1 : std::max(longest, timeout);
    }
    int wait(int ep, epoll_event* ev, int max, int timeout) {
        asked(timeout);
        enter();
        if (interrupt) {
            interrupt = false;
            leave(false);
            errno = EINTR;
            return -1;
        }
        const int n = __real_epoll_wait(ep, ev, few ? std::min(few, max) : max, 0);
        if (n > 1 && shuffle) {
            for (int i = n - 1; i > 0; i--) {
                std::swap(ev[i], ev[c.u(static_cast<uint64_t>(i))]);
            }
        }
        leave(n == 0);
        touched.clear();
        for (int i = 0; i < n && !sample_all; i++) {
            if (Link* l = by_server(ev[i].data.fd)) {
                mark(*l);
                touched.push_back(l);
            }
        }
        return n;
    }
    int accept(sockaddr* a, socklen_t* len, int flags) {
        accepts++;
        if (!listening) {
            errno = EINVAL;
            return -1;
        }
        if (shortage) {
            errno = shortage;
            return -1;
        }
        if (!accept_errors.empty()) {
            const auto e = accept_errors.front();
            accept_errors.pop_front();
            if (e.consumes && !pending.empty()) {
                Link* l = pending.front();
                pending.pop_front();
                l->dropped = true;
                foreign.erase(l->held);
                __real_close(l->held);
                l->held = -1;
            }
            errno = e.err;
            return -1;
        }
        if (pending.empty()) {
            errno = EAGAIN;
            return -1;
        }
        Link* l = pending.front();
        pending.pop_front();
        l->open_before = open();
        l->server = fcntl(l->held, F_DUPFD_CLOEXEC, 3);
        foreign.erase(l->held);
        __real_close(l->held);
        l->held = -1;
        l->accepted = true;
        numbers[l->server] = l;
        l->accepted_at = l->active_lo = l->active_hi = vclock::now;
        l->accepted_wait = waits;
        if (flags & SOCK_NONBLOCK) {
            fcntl(l->server, F_SETFL, O_NONBLOCK);
        }
        mark(*l);
        max_open = std::max(max_open, open());
        if (a && len) {
            sockaddr_in in{};
            in.sin_family = AF_INET;
            in.sin_port = htons(static_cast<uint16_t>(1024 + l->id));
            in.sin_addr.s_addr = htonl(0xc0000200u + static_cast<uint32_t>(l->id % 250));
            memcpy(a, &in, std::min<size_t>(*len, sizeof in));
            *len = sizeof in;
        }
        touched.push_back(l);
        if (on_accept) {
            on_accept(l);
        }
        return l->server;
    }
    Link* by_server(int fd) {
        const auto it = numbers.find(fd);
        return it != numbers.end() && !it->second->closed ? it->second : nullptr;
    }
    int close(int fd) {
        if (fd < 0) {
            return __real_close(fd);
        }
        if (foreign.contains(fd)) {
            wrong(std::format("descriptor {} is closed, which is not the server's (any more)", fd));
            errno = EBADF;
            return -1;
        }
        if (fcntl(fd, F_GETFD) < 0) {
            wrong(std::format("descriptor {} is closed twice", fd));
            errno = EBADF;
            return -1;
        }
        Link* l = by_server(fd);
        if (l) {
            sample(*l);
            l->closed = true;
            l->closed_at = vclock::now;
        }
        if (fd == listener) {
            listener_closed = true;
            closes_of_listener++;
        }
        const int r = __real_close(fd);
        if (l && plant) {
            int v[2];
            if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, v) == 0) {
                const int other = high(v[1]);
                if (v[0] != fd) {
                    dup2(v[0], fd);
                    __real_close(v[0]);
                }
                uint8_t b = 0x5a;
                (void)!::send(other, &b, 1, 0);
                foreign.insert(fd);
                foreign.insert(other);
                sentinels.push_back({fd, other});
            }
        }
        if (l && on_close) {
            on_close(l);
        }
        return r;
    }
};
inline World* W = nullptr;

inline World::~World() {
    harness = true;
    for (auto& s : sentinels) {
        __real_close(s.fd);
        __real_close(s.other);
    }
    for (auto& l : links) {
        if (l->client >= 0) {
            __real_close(l->client);
        }
        if (l->held >= 0) {
            __real_close(l->held);
        }
        if (l->accepted && !l->closed && l->server >= 0) {
            __real_close(l->server);  // leaked by the server
        }
    }
    if (poke >= 0) {
        __real_close(poke);
    }
    if (listener >= 0 && !listener_closed) {
        __real_close(listener);
    }
    W = nullptr;
}

// code of the server runs inside this
template <class F>
void serve(World& w, F&& f) {
    W = &w;
    vclock::on = true;
    w.harness = false;
    struct Off {
        World& w;
        ~Off() {
            w.harness = true;
            W = nullptr;
            vclock::on = false;
        }
    } off{w};
    f();
}
inline bool server_side() {
    return W && !W->harness;
}

// ------------------------------------------------------------------ clients
struct Client {
    World& w;
    Link* l;
    std::string tag;
    std::unique_ptr<tls::Client> t;
    Bytes todo;          // plaintext to send in all
    size_t fed = 0;      // of it, turned into what is on the wire
    Bytes wire;          // what is (to be) sent
    size_t sent = 0;     // of it, put into the socket
    size_t hs_size = SIZE_MAX;  // of it, needed by the server to complete the handshake
    conn::Output out;
    bool eof = false, reset = false, shut = false;
    size_t received = 0;
    std::vector<size_t> record_ends;  // of application data, in `wire`
    std::vector<size_t> in_record_ends;  // of TLS records, in what the server sent
    Bytes in_header;
    size_t in_skip = 0;
    void parse_records(const uint8_t* p, size_t n) {
        for (size_t i = 0; i < n; i++) {
            if (in_skip > 0) {
                const size_t k = std::min(in_skip, n - i);
                in_skip -= k;
                i += k - 1;
                if (in_skip == 0) {
                    in_record_ends.push_back(received + i + 1);
                }
                continue;
            }
            in_header.push_back(p[i]);
            if (in_header.size() == 5) {
                in_skip = static_cast<size_t>(in_header[3] << 8 | in_header[4]);
                in_header.clear();
            }
        }
    }

    Client(World& world, bool over_tls, int server_buffer = 0, int client_buffer = 0, tls::Client::Options o = {})
        : w(world), l(world.connect(server_buffer, client_buffer)), out(true) {
        tag = std::to_string(l->id);
        if (over_tls) {
            t = std::make_unique<tls::Client>(o);
            t->pump();
            collect();
        }
    }
    void collect() {
        const Bytes b = t->take();
        const bool second = !wire.empty() && !b.empty();
        wire.insert(wire.end(), b.begin(), b.end());
        if (second && hs_size == SIZE_MAX) {
            hs_size = wire.size();  // the client's second flight is its last in the handshake
        }
    }
    bool gone() const {
        return l->client < 0 || eof || reset;
    }
    bool secure() const {
        return !t || t->connected;
    }
    // the server has seen everything the handshake needs
    bool server_secure() const {
        return !t || (hs_size != SIZE_MAX && l->taken >= hs_size);
    }
    bool feed(size_t n) {
        n = std::min(n, todo.size() - fed);
        if (n == 0 || !secure() || (t && (t->failed || t->ended))) {
            return false;
        }
        if (t) {
            for (size_t at = 0; at < n;) {
                const size_t k = std::min<size_t>(16384, n - at);
                if (!t->send({todo.data() + fed + at, k})) {
                    return false;
                }
                at += k;
                collect();
                record_ends.push_back(wire.size());
            }
        } else {
            wire.insert(wire.end(), todo.begin() + static_cast<long>(fed), todo.begin() + static_cast<long>(fed + n));
        }
        fed += n;
        return true;
    }
    bool push(size_t n = SIZE_MAX) {
        n = std::min(n, wire.size() - sent);
        if (l->client < 0 || shut || n == 0) {
            return false;
        }
        const auto k = ::send(l->client, wire.data() + sent, n, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (k <= 0) {
            return false;
        }
        sent += static_cast<size_t>(k);
        return true;
    }
    bool pull(size_t n = SIZE_MAX) {
        if (l->client < 0) {
            return false;
        }
        bool any = false;
        uint8_t buf[16384];
        while (n > 0) {
            const auto k = ::recv(l->client, buf, std::min(n, sizeof buf), MSG_DONTWAIT);
            if (k == 0) {
                eof = true;
                if (t) {
                    t->receive_eof();
                }
                break;
            }
            if (k < 0) {
                reset |= errno != EAGAIN && errno != EWOULDBLOCK;
                break;
            }
            any = true;
            if (t) {
                parse_records(buf, static_cast<size_t>(k));
            }
            n -= static_cast<size_t>(k);
            received += static_cast<size_t>(k);
            if (t) {
                t->receive({buf, static_cast<size_t>(k)});
                collect();
                out.feed(t->received);
                t->received.clear();
            } else {
                out.feed({buf, static_cast<size_t>(k)});
            }
        }
        return any;
    }
    void half_close() {
        if (l->client >= 0) {
            ::shutdown(l->client, SHUT_WR);
            shut = true;
        }
    }
    void close() {
        w.client_close(*l);
    }
    bool all_sent() const {
        return fed == todo.size() && sent == wire.size();
    }
};

// handlers by the client that asks
struct Cast {
    std::map<std::string, conn::Stage*> stages;
    std::function<void(const ion::HttpRequest&)> other;  // asked by nobody in particular
    size_t calls = 0;
    size_t other_body = 100;
    void attach(ion::Http2Server& server) {
        server.router().add_middleware([this](ion::RouteHandler) -> ion::RouteHandler {
            return [this](const ion::HttpRequest& r) -> ion::HttpResponse {
                calls++;
                for (auto& h : r.headers) {
                    if (h.name == "x-id") {
                        if (auto it = stages.find(h.value); it != stages.end()) {
                            return it->second->answer(r);
                        }
                    }
                }
                if (other) {
                    other(r);
                }
                return ion::HttpResponse{.status_code = 200, .body = Bytes(other_body, 'x')};
            };
        });
    }
};
inline ion::ServerConfiguration config(bool over_tls) {
    ion::ServerConfiguration cfg{};
    cfg.cleartext = !over_tls;
    if (over_tls) {
        cfg.cert_path = tls::server_pair().cert;
        cfg.key_path = tls::server_pair().key;
    }
    return cfg;
}
inline void init() {
    signal(SIGPIPE, SIG_IGN);
    rlimit r{};
    getrlimit(RLIMIT_NOFILE, &r);
    r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096);
    setrlimit(RLIMIT_NOFILE, &r);
}
}  // namespace sim

// ------------------------------------------------------------------ the system
extern "C" {
inline int __attribute__((used)) __wrap_close(int fd) {
    if (sim::server_side()) {
        return sim::W->close(fd);
    }
    if (sim::W) {  // the server is being unwound after a failure
        if (auto* l = sim::W->by_server(fd)) {
            l->closed = true;
        }
        sim::W->listener_closed |= fd == sim::W->listener;
    }
    return __real_close(fd);
}
inline int __attribute__((used)) __wrap_socket(int d, int type, int p) {
    if (!sim::server_side() || (d != AF_INET && d != AF_INET6) || sim::W->listener >= 0) {
        return __real_socket(d, type, p);
    }
    if (sim::W->fails(sim::World::Setup::Socket)) {
        return -1;
    }
    int v[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, v) != 0) {
        return -1;
    }
    sim::W->poke = sim::World::high(v[1]);
    sim::W->foreign.insert(sim::W->poke);
    if (type & SOCK_NONBLOCK) {
        fcntl(v[0], F_SETFL, O_NONBLOCK);
    }
    return sim::W->listener = v[0];
}
inline int __attribute__((used)) __wrap_bind(int fd, const sockaddr* a, socklen_t n) {
    if (sim::server_side() && fd == sim::W->listener) {
        if (sim::W->fails(sim::World::Setup::Bind)) {
            return -1;
        }
        if (sim::W->bind_fails) {
            errno = EADDRINUSE;
            return -1;
        }
        if (sim::W->lingering && !sim::W->reuse_address) {
            errno = EADDRINUSE;
            return -1;
        }
        if (a->sa_family == AF_INET6) {
            const auto* a6 = reinterpret_cast<const sockaddr_in6*>(a);
            sim::W->port = ntohs(a6->sin6_port);
            sim::W->any_address = IN6_IS_ADDR_UNSPECIFIED(&a6->sin6_addr);
        } else {
            const auto* a4 = reinterpret_cast<const sockaddr_in*>(a);
            sim::W->port = ntohs(a4->sin_port);
            sim::W->any_address = a4->sin_addr.s_addr == INADDR_ANY;
        }
        return 0;
    }
    return __real_bind(fd, a, n);
}
inline int __attribute__((used)) __wrap_listen(int fd, int n) {
    if (sim::server_side() && fd == sim::W->listener) {
        if (sim::W->fails(sim::World::Setup::Listen)) {
            ::shutdown(sim::W->poke, SHUT_RDWR);  // pollers report a hangup for sockets that do not listen
            errno = sim::W->setup_error;
            return -1;
        }
        if (sim::W->listen_fails) {
            errno = EADDRINUSE;
            return -1;
        }
        sim::W->listening = true;
        return 0;
    }
    return __real_listen(fd, n);
}
inline int __attribute__((used)) __wrap_accept(int fd, sockaddr* a, socklen_t* n) {
    return sim::server_side() && fd == sim::W->listener ? sim::W->accept(a, n, 0) : __real_accept(fd, a, n);
}
inline int __attribute__((used)) __wrap_accept4(int fd, sockaddr* a, socklen_t* n, int flags) {
    return sim::server_side() && fd == sim::W->listener ? sim::W->accept(a, n, flags) : __real_accept4(fd, a, n, flags);
}
inline int __attribute__((used)) __wrap_getpeername(int fd, sockaddr* a, socklen_t* n) {
    if (!sim::server_side()) {
        return __real_getpeername(fd, a, n);
    }
    sim::Link* l = sim::W->by_server(fd);
    if (!l || sim::W->peer_fails || l->client < 0) {
        errno = ENOTCONN;
        return -1;
    }
    sockaddr_in in{};
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(0xc0000200u + static_cast<uint32_t>(l->id % 250));
    memcpy(a, &in, std::min<size_t>(*n, sizeof in));
    *n = sizeof in;
    return 0;
}
inline int __attribute__((used)) __wrap_setsockopt(int fd, int level, int o, const void* v, socklen_t n) {
    if (!sim::server_side()) {
        return __real_setsockopt(fd, level, o, v, n);
    }
    if (fd == sim::W->listener && sim::W->fails(sim::World::Setup::Option)) {
        return -1;
    }
    if (sim::W->option_fails && fd != sim::W->listener) {
        errno = EINVAL;
        return -1;
    }
    if (fd == sim::W->listener && level == SOL_SOCKET && o == SO_REUSEADDR && n >= sizeof(int)) {
        sim::W->reuse_address = *static_cast<const int*>(v) != 0;
    }
    return 0;
}
inline int __attribute__((used)) __wrap_epoll_create1(int flags) {
    return sim::server_side() && sim::W->fails(sim::World::Setup::Create) ? -1 : __real_epoll_create1(flags);
}
inline int __attribute__((used)) __wrap_epoll_ctl(int ep, int op, int fd, epoll_event* ev) {
    if (sim::server_side() && op == EPOLL_CTL_ADD && fd == sim::W->listener && sim::W->fails(sim::World::Setup::Add)) {
        return -1;
    }
    if (sim::server_side() && op == EPOLL_CTL_ADD && sim::W->add_fails > 0 && fd != sim::W->listener) {
        sim::W->add_fails--;
        sim::W->add_fails_seen++;
        errno = ENOSPC;
        return -1;
    }
    return __real_epoll_ctl(ep, op, fd, ev);
}
inline int __attribute__((used)) __wrap_epoll_wait(int ep, epoll_event* ev, int max, int timeout) {
    return sim::server_side() ? sim::W->wait(ep, ev, max, timeout) : __real_epoll_wait(ep, ev, max, timeout);
}
inline int __attribute__((used)) __wrap_poll(pollfd* f, nfds_t n, int timeout) {
    if (!sim::server_side()) {
        return __real_poll(f, n, timeout);
    }
    sim::W->asked(timeout);
    sim::W->enter();
    if (sim::W->interrupt) {
        sim::W->interrupt = false;
        sim::W->leave(false);
        errno = EINTR;
        return -1;
    }
    const int r = __real_poll(f, n, 0);
    sim::W->leave(r == 0);
    return r;
}
}
