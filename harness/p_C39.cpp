// C39: however fast a client sends, the server gets to its other work.
#include <sys/syscall.h>
#include <sys/uio.h>

#include "wild.h"

using namespace pbt;
using namespace sim;

enum class What { Requests, Ping, PingAck, Settings, SettingsAck, Unknown, Large, Window, Data, Mixed, Kinds };
static const char* what_name(What k) {
    static const char* n[] = {"requests", "PING", "PING ACK", "SETTINGS", "SETTINGS ACK", "unknown frames", "large frames", "WINDOW_UPDATE", "DATA", "mixed"};
    return n[static_cast<size_t>(k)];
}

// always has more to send: whenever the server has read something, there is more to read
struct Flood {
    Client cl;
    What kind;
    uint32_t stream = 1;
    size_t requests = 0, pings = 0, settings = 0, size;
    size_t turn_read = 0, turns = 0, total = 0;
    bool last = false;  // the last frame, a PING, was added
    Bytes request;
    Flood(World& w, bool tls, What k) : cl(w, tls, some_buffer(w.c), some_buffer(w.c), some_options(w.c)), kind(k) {
        Case& c = w.c;
        size = kind == What::Large ? c.pick<size_t>({16384, 16000, 9000}) : c.skewed(c.flip() ? 16 : 300);
        h2::append(cl.todo, h2::PREFACE);
        request = {0x82, 0x87, 0x84};
        if (c.chance(1, 4)) {
            request.insert(request.end(), {0x00, 0x01, 'x', 0x7f, 0x00});
            request.insert(request.end(), 127, 'y');
        }
        c.label(what_name(k));
    }
    void ping(uint8_t flags) {
        h2::append(cl.todo, h2::frame(h2::PING, flags, 0, Bytes(8, static_cast<uint8_t>(pings))));
    }
    void add(What k) {
        switch (k) {
            case What::Requests:
                h2::append(cl.todo, h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, stream, request));
                stream += 2;
                requests++;
                break;
            case What::Ping:
                ping(0);
                pings++;
                break;
            case What::PingAck:
                ping(h2::ACK);
                break;
            case What::Settings:
                h2::append(cl.todo, h2::frame(h2::SETTINGS, 0, 0, {}));
                cl.out.announce({});
                settings++;
                break;
            case What::SettingsAck:
                h2::append(cl.todo, h2::frame(h2::SETTINGS, h2::ACK, 0, {}));
                break;
            case What::Window:
                h2::append(cl.todo, h2::frame(h2::WINDOW_UPDATE, 0, 0, {0, 0, 0, 1}));
                break;
            case What::Data:
                h2::append(cl.todo, h2::frame(h2::DATA, 0, stream, Bytes(size, 'd')));
                break;
            default:
                h2::append(cl.todo, h2::frame(0x20, 0, stream, Bytes(size, 'u')));
        }
    }
    void more() {
        if (last) {
            return;
        }
        if (!cl.secure() || cl.wire.size() - cl.sent > 30000) {
            return;
        }
        const size_t want = cl.fed + 10000;
        while (cl.todo.size() < want) {
            add(kind == What::Mixed ? static_cast<What>(cl.todo.size() / 37 % static_cast<size_t>(What::Mixed)) : kind);
        }
    }
    void go() {
        cl.pull();
        more();
        cl.feed(SIZE_MAX);
        cl.push();
    }
    void finish() {
        if (!last && cl.secure()) {
            ping(0);
            pings++;
            last = true;
        }
    }
    bool done() const {
        return last && cl.all_sent() && cl.out.count(conn::Event::Ping) >= pings;
    }
};

// wants its answers, as fast as they come
struct Asker {
    Client cl;
    conn::Stage stage;
    conn::Session s;
    size_t pings = 1;
    Asker(World& w, bool tls) : cl(w, tls, some_buffer(w.c), some_buffer(w.c), some_options(w.c)) {
        Case& c = w.c;
        conn::Gen gen{c};
        gen.tag = cl.tag;
        for (size_t i = 0, n = 1 + c.len(6); i < n; i++) {
            if (c.chance(1, 5)) {
                s.items.push_back(gen.control());
                pings += s.items.back().kind == conn::Item::Ping && !s.items.back().ping.empty();
            } else {
                s.items.push_back(gen.request(4));
                conn::Plan p{.resp = conn::make_response(c, gen.resp_fields, false)};
                p.resp.body.resize(std::min<size_t>(p.resp.body.size(), 5000));
                stage.plans.push_back(p);
            }
        }
        conn::Item last{.kind = conn::Item::Ping, .wire = h2::frame(h2::PING, 0, 0, Bytes(8, 'z'))};
        last.ping = Bytes(8, 'z');
        s.items.push_back(last);
        s.announce(cl.out);
        cl.todo = s.bytes();
    }
    bool served() const {
        return cl.out.count(conn::Event::Ping) >= pings;
    }
};

static std::map<int, Flood*>* floods_by_link = nullptr;
static std::function<void(Flood&)>* on_read = nullptr;

static void after_read(int fd, ssize_t n) {
    if (n <= 0 || !floods_by_link || !server_side()) {
        return;
    }
    Link* l = W->by_server(fd);
    if (!l) {
        return;
    }
    const auto it = floods_by_link->find(static_cast<int>(l->id));
    if (it == floods_by_link->end()) {
        return;
    }
    const int e = errno;
    const bool was = W->harness;
    W->harness = true;
    it->second->turn_read += static_cast<size_t>(n);
    (*on_read)(*it->second);
    W->harness = was;
    errno = e;
}
// by the server as well as by the TLS library on its behalf
extern "C" {
ssize_t read(int fd, void* p, size_t n) {
    const auto r = syscall(SYS_read, fd, p, n);
    after_read(fd, r);
    return r;
}
ssize_t recv(int fd, void* p, size_t n, int flags) {
    const auto r = syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
    after_read(fd, r);
    return r;
}
ssize_t readv(int fd, const iovec* v, int n) {
    const auto r = syscall(SYS_readv, fd, v, n);
    after_read(fd, r);
    return r;
}
ssize_t recvmsg(int fd, msghdr* m, int flags) {
    const auto r = syscall(SYS_recvmsg, fd, m, flags);
    after_read(fd, r);
    return r;
}
}

static constexpr size_t BOUND = 4 << 20;  // octets of a client a single turn may take

static void prop(Case& c) {
    quiet_logs();
    const bool tls = c.chance(2, 5);
    World w(c);
    vclock::now = ns(1000s);
    w.last_wait = vclock::now;
    w.idle_advance = 1ms;
    w.plant = false;
    w.few = c.chance(1, 3) ? static_cast<int>(1 + c.u(2)) : 0;
    Cast cast;
    cast.other_body = c.chance(1, 4) ? c.skewed(1000) : c.u(20);
    std::vector<std::unique_ptr<Flood>> floods;
    std::vector<std::unique_ptr<Asker>> ordinary;
    std::unique_ptr<Client> silent;
    std::map<int, Flood*> by_link;
    std::unique_ptr<ion::Http2Server> server;
    const size_t want_floods = 1 + c.len(3), want_ordinary = 1 + c.len(3);
    enum class End { Served, Stop, Signal, Thread };
    const auto end = static_cast<End>(c.weighted({4, 1, 1, 2}));
    const bool idle = c.chance(1, 2);
    bool flooding = true, asked = false, asked_waiting = false;
    size_t phase = 0, waits_in_phase = 0, waits_after = 0, reads_left = SIZE_MAX, answered_during = 0;
    const bool storm = c.chance(1, 3);  // whenever a connection is accepted, there is another one to accept
    size_t accepted_in_turn = 0, storm_left = storm ? 40 + c.u(200) : 0, stormed = 0;
    std::vector<Link*> passing;
    // all places are taken, so that those who come are turned away
    const size_t crowd = storm && c.chance(1, 3) ? 130 : 0;
    std::vector<std::unique_ptr<Client>> crowding;
    size_t progress = 0;

    std::function<void(Flood&)> reading = [&](Flood& f) {
        f.total = std::max(f.total, f.turn_read);
        if (f.turn_read > BOUND) {
            w.wrong(std::format("the server has read {} octets ({}) from client {} in one turn and goes on", f.turn_read, what_name(f.kind), f.cl.tag));
            flooding = false;
        }
        if (flooding) {
            f.go();
        }
        if (reads_left != SIZE_MAX && reads_left-- == 0) {
            reads_left = SIZE_MAX;
            asked = true;  // by another thread, right now
            server->stop();
        }
    };
    auto add_flood = [&] {
        floods.push_back(std::make_unique<Flood>(w, tls, static_cast<What>(c.u(static_cast<uint64_t>(What::Kinds) - 1))));
        by_link[static_cast<int>(floods.back()->cl.l->id)] = floods.back().get();
        const auto& f = *floods.back();
        c.note([&] { return std::format("client {} sends {} without end", f.cl.tag, what_name(f.kind)); });
    };
    auto add_ordinary = [&] {
        ordinary.push_back(std::make_unique<Asker>(w, tls));
        cast.stages[ordinary.back()->cl.tag] = &ordinary.back()->stage;
    };
    auto states = [&] {
        std::string s;
        for (auto& f : floods) {
            if (!f->done()) {
                s += std::format("; client {} ({}): {} of {} octets sent ({} unread), {} received ({} unread), {} answers to {} requests, {} to {} PINGs", f->cl.tag,
                                 what_name(f->kind), f->cl.sent, f->cl.wire.size(), World::unread(f->cl.l->server), f->cl.received, World::unread(f->cl.l->client),
                                 f->cl.out.responses.size(), f->requests, f->cl.out.count(conn::Event::Ping), f->pings);
            }
        }
        return s;
    };
    w.on_accept = [&](Link*) {
        if (phase == 0 || !flooding) {
            return;
        }
        if (++accepted_in_turn > 1000) {
            w.wrong("the server has accepted 1000 connections in one turn and goes on");
            flooding = false;
        } else if (storm && (storm_left > 0 || accepted_in_turn > 2)) {
            storm_left -= storm_left > 0;
            passing.push_back(w.connect());
            stormed++;
        }
    };
    auto next = [&] {
        phase++;
        waits_in_phase = 0;
    };
    auto ask = [&](bool by_signal) {
        asked = asked_waiting = true;
        server->stop(by_signal ? ion::StopReason::Signal : ion::StopReason::Other);
        w.interrupt = by_signal;
    };
    w.step = [&] {
        for (auto& f : floods) {
            f->turns += f->turn_read > 0;
            f->turn_read = 0;
            c.check(!f->cl.l->closed || !flooding, [&] { return std::format("the connection of client {}, which is active, is closed", f->cl.tag); });
        }
        if (asked) {
            waits_after++;
            c.check(!asked_waiting, "the server waits again although it was asked to stop while it waited before");
            c.check(waits_after <= 1, "the server goes on although it was asked to stop");
        }
        vclock::advance(1ms);
        waits_in_phase++;
        accepted_in_turn = 0;
        for (auto* l : passing) {
            if (l->accepted && l->client >= 0) {
                w.client_close(*l);
            }
        }
        std::erase_if(passing, [](auto* l) { return l->client < 0; });
        if (storm && phase > 0 && storm_left > 0 && flooding && passing.empty()) {
            passing.push_back(w.connect());
        }
        const size_t clients = floods.size() + ordinary.size() + crowding.size() + 4;
        if (flooding) {
            for (auto& f : floods) {
                f->go();
            }
        }
        for (auto& o : ordinary) {
            o->cl.pull();
            o->cl.feed(SIZE_MAX);
            o->cl.push();
        }
        if (silent) {
            silent->pull();
            silent->feed(SIZE_MAX);
            silent->push();
        }
        switch (phase) {
            case 0:  // everybody arrives
                if (floods.size() == want_floods && ordinary.size() == want_ordinary && (silent || !idle)) {
                    if (crowding.size() < crowd) {
                        crowding.push_back(std::make_unique<Client>(w, false));
                    } else {
                        next();
                    }
                    break;
                }
                switch (c.u(2)) {
                    case 0:
                        if (floods.size() < want_floods) {
                            add_flood();
                            break;
                        }
                        [[fallthrough]];
                    case 1:
                        if (ordinary.size() < want_ordinary) {
                            add_ordinary();
                            break;
                        }
                        [[fallthrough]];
                    default:
                        if (idle && !silent) {
                            silent = std::make_unique<Client>(w, tls);
                            if (c.flip()) {
                                silent->todo = Bytes(h2::PREFACE.begin(), h2::PREFACE.end());
                            }
                        } else if (floods.size() < want_floods) {
                            add_flood();
                        }
                }
                break;
            case 1: {  // those who ask for something get it
                std::string waiting;
                for (auto& o : ordinary) {
                    if (!o->served()) {
                        waiting += std::format("; client {}: {} of {} octets sent, {} answers to {} requests, {}", o->cl.tag, o->cl.sent, o->cl.wire.size(),
                                               o->cl.out.responses.size(), o->stage.plans.size(),
                                               !o->cl.l->accepted ? "not accepted" : o->cl.l->closed ? "closed" : o->cl.out.error);
                    }
                }
                if (waiting.empty()) {
                    answered_during = ordinary.size();
                    next();
                    break;
                }
                c.check(waits_in_phase < 200 * clients, [&] { 
                    return "ordinary clients are not served while others send without end" + waiting;
                });
                break;
            }
            case 2:  // those who ask for nothing are closed in time
                if (!silent) {
                    next();
                    break;
                }
                w.few = 0;
                if (silent->l->closed) {
                    c.label("idle connection closed meanwhile");
                    next();
                    break;
                }
                if (waits_in_phase > 3 * clients) {
                    vclock::advance(1s);
                }
                c.check(waits_in_phase < 3 * clients + 12, "an idle connection is not closed while others send without end");
                break;
            case 3:
                if (waits_in_phase < 4) {
                    break;
                }
                switch (end) {
                    case End::Served:
                        flooding = false;
                        next();
                        break;
                    case End::Thread:
                        reads_left = c.u(20);
                        c.label("stopped by another thread");
                        next();
                        break;
                    default:
                        ask(end == End::Signal);
                        c.label(end == End::Signal ? "stopped by a signal" : "stopped while waiting");
                        next();
                }
                break;
            default:
                if (end != End::Served) {
                    c.check(asked || waits_in_phase < 3000 * clients, [&] { return "the server does not read from active clients any more" + states(); });
                    break;
                }
                bool done = true;
                size_t now = 0;
                for (auto& f : floods) {
                    now += f->cl.received + f->cl.sent + f->cl.l->taken;
                    f->finish();
                    f->cl.pull();
                    f->cl.feed(SIZE_MAX);
                    f->cl.push();
                    done &= f->done();
                }
                if (done) {
                    c.label("all served after all");
                    if (!asked) {
                        ask(false);
                    }
                    break;
                }
                if (now != progress) {
                    progress = now;
                    waits_in_phase = 0;
                }
                c.check(waits_in_phase < 400 * clients, [&] { return "what clients sent is not processed to the end" + states(); });
        }
    };
    floods_by_link = &by_link;
    on_read = &reading;
    struct Off {
        ~Off() {
            floods_by_link = nullptr;
            on_read = nullptr;
        }
    } off;
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        cast.attach(*server);
        server->start(8443);
        server.reset();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.check(asked, "the server returned although nobody asked it to");
    if (answered_during) {
        for (auto& o : ordinary) {
            const auto b = o->s.judge(o->cl.out, o->stage);
            c.check(b.empty(), [&] { return std::format("client {}: {}", o->cl.tag, b); });
        }
    }
    size_t turns = 0, most = 0;
    for (auto& f : floods) {
        c.check(f->cl.out.error.empty(), [&] { return std::format("client {}: {}", f->cl.tag, f->cl.out.error); });
        if (end == End::Served) {
            c.check(f->cl.out.responses.size() == f->requests, [&] { return std::format("client {}: {} answers to {} requests", f->cl.tag, f->cl.out.responses.size(), f->requests); });
            c.check(f->cl.out.count(conn::Event::Ack) == f->settings, [&] { return std::format("client {}: {} acknowledgements of {} SETTINGS", f->cl.tag, f->cl.out.count(conn::Event::Ack), f->settings); });
            c.check(f->cl.out.count(conn::Event::Ping) == f->pings, [&] { return std::format("client {}: {} answers to {} PINGs", f->cl.tag, f->cl.out.count(conn::Event::Ping), f->pings); });
        }
        turns += f->turns;
        most = std::max(most, f->total);
    }
    c.note([&] { return std::format("{} waits, {} turns of those who send without end, at most {} octets in a turn", w.waits, turns, most); });
    if (stormed > 20 && w.rejected() > 10) {
        c.label("turned away without end");
    }
    if (stormed > 20) {
        c.label("connections without end");
    }
    c.label(tls ? "TLS" : "cleartext");
    if (w.few) {
        c.label("few events at a time");
    }
    if (turns >= 10 && answered_during) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C39",
               .rule = "a simulated server with one to four clients that send without end (whenever the server has read "
                       "something, there is more to read; accepted, there is another to accept), ordinary clients that want answers, a silent one that is "
                       "to be closed, and a stop in the middle of it; non-trivial = ten turns of such clients while "
                       "ordinary clients were answered",
               .fn = prop};
    p.quick_cases = 900;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "requests", "PING", "PING ACK", "SETTINGS", "SETTINGS ACK", "unknown frames", "large frames", "WINDOW_UPDATE", "DATA", "mixed",
                         "idle connection closed meanwhile", "stopped by another thread", "stopped by a signal", "stopped while waiting", "all served after all",
                         "few events at a time", "connections without end", "turned away without end"};
    return run_main(argc, argv, p);
}
