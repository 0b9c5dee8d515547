// C17: at most 128 connections are served at once, and capacity is always recovered.
#include "sim.h"

using namespace pbt;
using namespace sim;

static constexpr size_t LIMIT = 128;

struct Guest {
    Client cl;
    uint32_t next_stream = 1;
    size_t asked = 0;
    bool behaves = true, closing = false, judged = false;
    explicit Guest(World& w, bool tls) : cl(w, tls) {}
};

static void prop(Case& c) {
    quiet_logs(c.chance(1, 200));
    const bool tls = c.chance(1, 30);
    World w(c);
    w.few = c.chance(1, 4) ? static_cast<int>(1 + c.u(40)) : 0;
    w.plant = c.chance(1, 8);
    w.sample_all = false;
    w.idle_advance = 10us;
    Cast cast;
    std::vector<std::unique_ptr<Guest>> guests;
    std::unique_ptr<ion::Http2Server> server;
    size_t faults = 0, refused = 0, recovered = 0, timeouts = 0;
    std::set<size_t> turned_away;
    const ref::Fields fields{{":method", "GET"}, {":path", "/"}, {":scheme", "http"}};

    auto ask = [&](Guest& g) {
        if (g.cl.gone() || g.cl.shut || g.closing) {
            return;
        }
        if (g.cl.todo.empty()) {
            h2::append(g.cl.todo, h2::PREFACE);
            h2::append(g.cl.todo, h2::frame(h2::SETTINGS, 0, 0, {}));
            g.cl.out.announce({});
        }
        ref::Encoder enc{4096, 4096};
        Bytes block{0x82, 0x84, 0x86};  // GET / http
        h2::append(g.cl.todo, h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, g.next_stream, block));
        g.next_stream += 2;
        g.asked++;
    };
    auto serve_all = [&] {
        for (auto& g : guests) {
            if (g->cl.l->client < 0) {
                continue;
            }
            g->cl.feed(SIZE_MAX);
            g->cl.push();
            const bool more = g->cl.out.responses.size() < g->asked || (g->cl.l->closed && !g->cl.gone());
            if (more || (tls && !g->cl.secure()) || w.waits % 16 == 0) {
                g->cl.pull();
            }
        }
    };
    auto leave = [&](Guest& g) {
        if (g.cl.l->client < 0) {
            return;
        }
        g.closing = true;
        switch (c.u(3)) {
            case 0:
                g.cl.close();
                break;
            case 1:
                g.cl.half_close();
                break;
            case 2:  // a violation
                h2::append(g.cl.todo, h2::header(20000, 0, 0, 1));
                h2::append(g.cl.todo, Bytes(9000, 0));
                g.cl.feed(SIZE_MAX);
                g.cl.push();
                break;
            default:
                h2::append(g.cl.todo, h2::frame(h2::GOAWAY, 0, 0, Bytes(8, 0)));
                g.cl.feed(SIZE_MAX);
                g.cl.push();
        }
    };
    // what must hold whenever the server waits
    auto judge = [&] {
        const size_t open = w.open();
        c.check(open <= LIMIT, [&] { return std::format("{} connections are open", open); });
        for (auto& g : guests) {
            Link& l = *g->cl.l;
            if (!l.accepted) {
                continue;
            }
            const auto who = [&](const char* what) {
                return std::format("client {} (accepted with {} open): {}", l.id, l.open_before, what);
            };
            if (l.open_before >= LIMIT) {
                if (!turned_away.contains(l.id)) {
                    turned_away.insert(l.id);
                    refused++;
                }
                c.check(l.closed, [&] { return who("not closed although the server is full"); });
                c.check(l.given == 0 && g->cl.received == 0, [&] { return who("served although the server is full"); });
            } else if (l.closed && !g->closing) {
                const bool idle = l.closed_at - l.active_lo > 5s || (tls && l.closed_at - l.accepted_at > 5s && !g->cl.server_secure());
                c.check(idle, [&] { return who("closed although there is room"); });
            }
        }
    };
    size_t turn = 0, quiet = 0, ending = 0, last = 0;
    const size_t turns = 10 + c.len(60);
    std::vector<Guest*> probes;
    auto progress = [&] {
        size_t n = w.accepts;
        for (auto& g : guests) {
            n += g->cl.sent + g->cl.received + g->cl.l->taken + g->cl.l->given + g->cl.fed + g->cl.l->closed;
        }
        return n;
    };
    auto arrive = [&](size_t n) {
        for (size_t i = 0; i < n; i++) {
            guests.push_back(std::make_unique<Guest>(w, tls));
            cast.stages.clear();
        }
    };
    size_t settle_left = 0;
    bool settled = true;
    w.step = [&] {
        judge();
        if (settle_left > 0) {  // let it come to rest
            settle_left--;
            serve_all();
            const size_t m = progress();
            quiet = m == last && w.pending.empty() && w.accept_errors.empty() ? quiet + 1 : 0;
            last = m;
            // it may wait a moment before it tries again to accept
            w.idle_advance = w.pending.empty() && w.accept_errors.empty() ? 100us : 3ms;
            if (quiet < 4) {
                c.check(settle_left > 0, "the server does not come to rest");
                return;
            }
            settle_left = 0;
            settled = true;
            // who is connected has been answered
            for (auto& g : guests) {
                Link& l = *g->cl.l;
                if (l.dropped || l.closed || g->closing || g->cl.l->client < 0) {
                    continue;
                }
                c.check(l.accepted, [&] { return std::format("client {} is not accepted with {} open", l.id, w.open()); });
                c.check(g->cl.out.error.empty(), g->cl.out.error);
                c.check(g->cl.out.responses.size() == g->asked, [&] {
                    return std::format("client {} has {} answers to {} requests", l.id, g->cl.out.responses.size(), g->asked);
                });
            }
        }
        if (turn < turns) {
            turn++;
            const size_t open = w.open() + w.pending.size();
            switch (c.weighted({6, 4, 6, 2, 2, 2, 1})) {
                case 0:  // towards the limit or around it
                    arrive(open < LIMIT - 8 && c.chance(2, 3) ? LIMIT - 4 - open + c.u(8) : 1 + c.u(5));
                    break;
                case 1: {
                    const size_t n = c.chance(1, 8) ? guests.size() : c.u(4);
                    for (size_t i = 0; i < n && !guests.empty(); i++) {
                        leave(*guests[c.u(guests.size() - 1)]);
                    }
                    break;
                }
                case 2:
                    for (size_t i = 0, n = 1 + c.u(5); i < n && !guests.empty(); i++) {
                        ask(*guests[c.u(guests.size() - 1)]);
                    }
                    serve_all();
                    break;
                case 3:
                    if (!w.pending.empty() || c.flip()) {
                        w.accept_errors.push_back({c.pick<int>({EMFILE, ENFILE, ENOBUFS, ENOMEM, EINTR, EAGAIN}), false});
                        faults++;
                        c.label("shortage while accepting");
                    }
                    break;
                case 4:
                    if (!w.pending.empty()) {
                        w.accept_errors.push_back({c.pick<int>({ECONNABORTED, EPROTO, EPERM}), true});
                        faults++;
                        c.label("aborted before it is accepted");
                    }
                    break;
                case 5:
                    settled = false;
                    settle_left = 3000;
                    quiet = 0;
                    break;
                default:
                    // time passes: those that are silent go
                    if (c.chance(1, 3)) {
                        serve_all();
                        vclock::advance(c.flip() ? ns(5s) : ns(6s));
                        timeouts++;
                        c.label("time-outs");
                    }
            }
            // some talk before they are accepted, and some are gone by then
            if (c.chance(1, 6) && !w.pending.empty()) {
                auto& g = *guests[w.pending.back()->id];
                g.closing = true;
                g.cl.close();
                c.label("gone before it is accepted");
            }
            return;
        }
        // finally everyone leaves, and all the room is there again
        if (ending == 0) {
            ending = 1;
            for (auto& g : guests) {
                leave(*g);
                g->closing = true;
                if (g->cl.shut || g->cl.l->client >= 0) {
                    g->cl.close();
                }
            }
            settle_left = 3000;
            quiet = 0;
            return;
        }
        if (ending == 1) {
            ending = 2;
            c.check(w.open() == 0, [&] { return std::format("{} connections are open although all clients have left", w.open()); });
            const size_t n = c.flip() ? LIMIT : 1 + c.u(3);
            arrive(n);
            for (size_t i = guests.size() - n; i < guests.size(); i++) {
                ask(*guests[i]);
                probes.push_back(guests[i].get());
            }
            settle_left = 3000;
            quiet = 0;
            return;
        }
        for (auto* g : probes) {
            c.check(g->cl.l->accepted && !g->cl.l->closed && g->cl.out.responses.size() == 1,
                    [&] { return std::format("client {} is not served although all others have left", g->cl.l->id); });
        }
        recovered++;
        server->stop();
    };
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        cast.attach(*server);
        server->start(8443);
        server.reset();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.check(recovered == 1, "the server returned although nobody asked it to");
    if (refused) {
        c.label("turned away");
    }
    if (w.max_open >= LIMIT) {
        c.label("full");
    }
    c.label(tls ? "TLS" : "cleartext");
    if (refused >= 1 && w.max_open >= LIMIT) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C17",
               .rule = "a simulated server with up to some hundred clients connecting, asking, leaving in four "
                       "ways, being aborted before they are accepted or falling silent, around the limit of 128, "
                       "with shortages while accepting; non-trivial = the limit reached and somebody turned away",
               .fn = prop};
    p.quick_cases = 6000;
    p.thorough_cases = 100000000;
    p.required_labels = {"full", "turned away", "shortage while accepting", "aborted before it is accepted", "time-outs",
                         "gone before it is accepted", "TLS", "cleartext"};
    return run_main(argc, argv, p);
}
