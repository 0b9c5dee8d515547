// Clients of every kind on a simulated server: those that misbehave (C18), and whole histories of
// anything at all (C19, C31).
#pragma once
#include "fuzzstream.h"
#include "sim.h"
#include "violation.h"

namespace sim {
enum class Evil { Garbage, Violation, Fuzz, Stall, Refuse, BrokenTls, HandshakeOnly, Noise, Leave, Kinds };
inline int some_buffer(Case& c) {
    return c.chance(1, 3) ? 0 : static_cast<int>(2000 + c.skewed(40000));
}
inline tls::Client::Options some_options(Case& c) {
    tls::Client::Options o;
    o.version = c.pick<int>({0, TLS1_3_VERSION, TLS1_2_VERSION});
    return o;
}

struct Bad {
    Client cl;
    Evil kind;
    bool done = false;
    Bad(World& w, bool tls, Evil k) : cl(w, tls, some_buffer(w.c), some_buffer(w.c), some_options(w.c)), kind(k) {
        Case& c = w.c;
        conn::Gen gen{c};
        auto requests = [&](size_t n) {
            h2::append(cl.todo, h2::PREFACE);
            for (size_t i = 0; i < n; i++) {
                h2::append(cl.todo, c.chance(1, 4) ? gen.control().wire : gen.request(4).wire);
            }
        };
        switch (kind) {
            case Evil::Garbage:
                cl.todo = c.bytes(1 + c.len(3000));
                c.label("garbage");
                break;
            case Evil::Violation:
                requests(c.len(4));
                h2::append(cl.todo, conn::violation(c, gen).wire);
                requests(1);
                c.label("violation");
                break;
            case Evil::Fuzz: {
                static conn::Stage spare;  // never asked
                cl.todo = conn::any_stream(c, gen, spare, false).in;
                spare.plans.clear();
                c.label("any stream");
                break;
            }
            case Evil::Stall:
                requests(1 + c.len(3));
                cl.todo.resize(c.u(cl.todo.size()));
                c.label("stalled");
                break;
            case Evil::Refuse:
                requests(50 + c.len(400));
                c.label("refuses to read");
                break;
            case Evil::BrokenTls:
                requests(2 + c.len(4));
                c.label(tls ? "broken TLS records" : "altered octets");
                break;
            case Evil::HandshakeOnly:
                c.label(tls ? "broken handshake" : "silent");
                if (tls) {
                    const size_t keep = c.u(cl.wire.size());
                    cl.wire.resize(keep);
                    if (c.flip()) {
                        h2::append(cl.wire, c.bytes(c.len(300)));
                    }
                    if (keep && c.flip()) {
                        cl.wire[c.u(keep - 1)] ^= static_cast<uint8_t>(1 + c.u(254));
                    }
                }
                break;
            case Evil::Noise:  // not even TLS
                cl.wire = c.flip() ? c.bytes(1 + c.len(2000)) : Bytes{};
                if (cl.wire.empty()) {
                    h2::append(cl.wire, std::string("GET / HTTP/1.1\r\nHost: localhost\r\n\r\n"));
                }
                c.label("not the protocol");
                break;
            default:
                requests(c.len(20));
                c.label("leaves abruptly");
        }
        c.note([&] { return std::format("client {} misbehaves, kind {}", cl.tag, static_cast<int>(kind)); });
    }
    void act() {
        Case& c = cl.w.c;
        if (done) {
            return;
        }
        const size_t n = 1 + c.skewed(30000);
        switch (c.weighted({4, 4, kind == Evil::Refuse ? 0u : 3u, 1})) {
            case 0:
                cl.feed(n);
                if (kind == Evil::BrokenTls && cl.sent < cl.wire.size() && cl.l->taken > 0) {
                    cl.wire[cl.sent + c.u(cl.wire.size() - cl.sent - 1)] ^= static_cast<uint8_t>(1 + c.u(254));
                }
                break;
            case 1:
                cl.push(n);
                break;
            case 2:
                if (kind == Evil::Refuse && cl.secure()) {
                    break;
                }
                cl.pull(n);
                break;
            default:
                if (kind == Evil::Stall || kind == Evil::Refuse ? c.chance(1, 10) : c.chance(1, 3)) {
                    if (c.flip()) {
                        cl.half_close();
                        c.label("half-closed");
                    } else {
                        cl.close();
                        done = true;
                    }
                } else if (cl.t && c.chance(1, 4) && cl.secure() && cl.t->raw()) {
                    cl.t->close_notify();
                    cl.collect();
                }
        }
        if (kind == Evil::Refuse && !cl.secure()) {
            cl.pull(n);
        }
    }
};

// sends requests and reads the answers, at any pace; may stop reading, half-close or leave
struct Ordinary {
    Client cl;
    conn::Stage stage;
    Ordinary(World& w, bool tls) : cl(w, tls, some_buffer(w.c), some_buffer(w.c), some_options(w.c)) {
        Case& c = w.c;
        conn::Gen gen{c};
        gen.tag = cl.tag;
        h2::append(cl.todo, h2::PREFACE);
        for (size_t i = 0, n = c.len(6); i < n; i++) {
            if (c.chance(1, 5)) {
                h2::append(cl.todo, gen.control().wire);
                continue;
            }
            h2::append(cl.todo, gen.request(4).wire);
            conn::Plan p{};
            if (c.chance(1, 5)) {
                p.throws = static_cast<conn::Throw>(1 + c.u(5));
            } else {
                p.resp.status_code = 200;
                p.resp.body.resize(c.chance(1, 3) ? c.u(200000) : c.u(100), 'b');
            }
            stage.plans.push_back(p);
        }
    }
    void act() {
        Case& c = cl.w.c;
        const size_t n = 1 + c.skewed(60000);
        switch (c.weighted({4, 4, 4, 1})) {
            case 0:
                cl.feed(n);
                cl.push(n);
                break;
            case 1:
                cl.push(n);
                break;
            case 2:
                cl.pull(n);
                break;
            default:
                if (c.chance(1, 4)) {
                    if (c.chance(1, 3)) {
                        cl.close();
                    } else if (cl.t && c.flip() && cl.secure() && cl.t->raw()) {
                        cl.t->close_notify();
                        cl.collect();
                        cl.push();
                    } else {
                        cl.half_close();
                    }
                }
        }
    }
};

// a history of anything: clients of every kind, time, faults of the system
struct Wild {
    World& w;
    bool tls;
    Cast cast;
    std::vector<std::unique_ptr<Ordinary>> ordinary;
    std::vector<std::unique_ptr<Bad>> bad;
    std::vector<std::unique_ptr<Client>> silent;
    std::function<void()> during;  // within every handler
    size_t most;
    bool faults, clock;
    explicit Wild(World& world, bool over_tls) : w(world), tls(over_tls) {
        Case& c = w.c;
        w.few = c.chance(1, 3) ? static_cast<int>(1 + c.u(3)) : 0;
        w.plant = c.flip();
        vclock::now = ns(1000s);
        w.last_wait = vclock::now;
        most = 1 + c.len(10);
        faults = c.flip();
        clock = c.flip();
        cast.other = [this](const ion::HttpRequest&) {
            if (during) {
                during();
            }
        };
    }
    void arrive() {
        Case& c = w.c;
        if (c.chance(1, 3)) {
            bad.push_back(std::make_unique<Bad>(w, tls, static_cast<Evil>(c.u(static_cast<uint64_t>(Evil::Kinds) - 1))));
        } else {
            ordinary.push_back(std::make_unique<Ordinary>(w, tls));
            auto& o = *ordinary.back();
            o.stage.during = [this](size_t) {
                if (during) {
                    during();
                }
            };
            cast.stages[o.cl.tag] = &o.stage;
        }
    }
    // many that only connect
    void crowd(size_t n) {
        for (size_t i = 0; i < n; i++) {
            silent.push_back(std::make_unique<Client>(w, false));
        }
        w.c.label("crowd");
    }
    size_t count() const {
        return ordinary.size() + bad.size();
    }
    void turn() {
        Case& c = w.c;
        for (size_t k = 0, n = c.u(5); k < n; k++) {
            if (count() < most && (count() == 0 || c.chance(1, 3))) {
                arrive();
            } else if (!ordinary.empty() && (bad.empty() || c.flip())) {
                ordinary[c.u(ordinary.size() - 1)]->act();
            } else if (!bad.empty()) {
                bad[c.u(bad.size() - 1)]->act();
            }
        }
        if (!silent.empty() && c.chance(1, 3)) {
            silent[c.u(silent.size() - 1)]->close();
        }
        if (clock && c.chance(1, 6)) {
            vclock::advance(c.pick<ns>({ns(1s), ns(3s), ns(5s), ns(5001ms), ns(60s)}));
        }
        if (c.chance(1, 20)) {
            w.interrupt = true;
        }
        if (faults && c.chance(1, 8)) {
            switch (c.u(3)) {
                case 0:
                    w.accept_errors.push_back({c.pick<int>({ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, EINTR}), c.flip()});
                    c.label("accepting fails");
                    break;
                case 1:
                    w.peer_fails = !w.peer_fails;
                    break;
                case 2:
                    w.option_fails = !w.option_fails;
                    break;
                default:
                    w.add_fails = 1;
                    c.label("watching fails");
            }
        }
    }
    template <class F>
    void each(F&& f) {
        for (auto& x : ordinary) {
            f(x->cl);
        }
        for (auto& x : bad) {
            f(x->cl);
        }
        for (auto& x : silent) {
            f(*x);
        }
    }
};
}  // namespace sim
