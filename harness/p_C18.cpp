// C18: what one connection does never disturbs another.
#include "wild.h"

using namespace pbt;
using namespace sim;
using conn::Gen;
using conn::Item;
using conn::Session;
using conn::Stage;

struct Good {
    Client cl;
    Stage stage;
    Session s;
    bool ends, notified = false;  // half-closes when done
    Good(World& w, bool tls, int sb, int cb, tls::Client::Options o) : cl(w, tls, sb, cb, o) {}
};
static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    const bool tls = c.chance(2, 5);
    World w(c);
    w.few = c.chance(1, 3) ? static_cast<int>(1 + c.u(3)) : 0;
    w.plant = c.flip();
    Cast cast;
    std::vector<std::unique_ptr<Good>> good;
    std::vector<std::unique_ptr<Bad>> bad;
    const size_t want_good = 1 + c.u(3), want_bad = 1 + c.u(c.chance(1, 6) ? 12 : 4);
    auto add_good = [&](bool probe) {
        auto g = std::make_unique<Good>(w, tls, probe ? 0 : some_buffer(c), probe ? 0 : some_buffer(c), some_options(c));
        Gen gen{c};
        gen.tag = g->cl.tag;
        for (size_t i = 0, n = 1 + c.len(probe ? 1 : 8); i < n; i++) {
            switch (c.weighted({6, 1, 1, 2})) {
                case 0:
                    g->s.items.push_back(gen.request(5));
                    g->stage.plans.push_back({.resp = conn::make_response(c, gen.resp_fields, c.chance(1, 4))});
                    break;
                case 1:
                    g->s.items.push_back(gen.request(3));
                    g->stage.plans.push_back({.throws = static_cast<conn::Throw>(1 + c.u(5))});
                    break;
                case 2:
                    g->s.items.push_back(gen.incomplete());
                    break;
                default:
                    g->s.items.push_back(gen.control());
            }
        }
        g->s.announce(g->cl.out);
        g->cl.todo = g->s.bytes();
        g->ends = !probe && c.chance(1, 4);
        cast.stages[g->cl.tag] = &g->stage;
        if (c.verbose) {
            c.note(std::format("client {} behaves", g->cl.tag));
            g->s.note(c);
        }
        good.push_back(std::move(g));
    };
    auto add_bad = [&] {
        bad.push_back(std::make_unique<Bad>(w, tls, static_cast<Evil>(c.u(static_cast<uint64_t>(Evil::Kinds) - 1))));
    };
    auto act_good = [&](Good& g, size_t n) {
        switch (c.u(3)) {
            case 0:
                g.cl.feed(n);
                break;
            case 1:
                g.cl.pull(n);
                break;
            default:
                g.cl.push(n);
        }
    };
    const size_t turns = 20 + c.len(200);
    size_t turn = 0, quiet = 0, closing_waits = 0, asked = 0;
    bool probed = false;
    size_t last = 0;
    std::unique_ptr<ion::Http2Server> server;
    auto moved = [&] {
        size_t n = w.accepts;
        for (auto& g : good) {
            n += g->cl.sent + g->cl.received + g->cl.l->taken + g->cl.l->given + g->cl.fed + g->cl.eof;
        }
        return n;
    };
    w.step = [&] {
        for (auto& g : good) {
            if (g->cl.l->closed && !g->cl.shut) {
                c.fail(std::format("the connection of client {}, which behaves, is closed", g->cl.tag));
            }
        }
        if (turn < turns) {
            turn++;
            for (size_t k = 0, n = c.u(4); k < n; k++) {
                if (good.size() < want_good && c.chance(1, 3)) {
                    add_good(false);
                } else if (bad.size() < want_bad && c.chance(1, 2)) {
                    add_bad();
                } else if (!good.empty() && (bad.empty() || c.flip())) {
                    act_good(*good[c.u(good.size() - 1)], 1 + c.skewed(30000));
                } else if (!bad.empty()) {
                    bad[c.u(bad.size() - 1)]->act();
                }
            }
            if (c.chance(1, 40)) {
                w.interrupt = true;
            }
            return;
        }
        // those that behave are served to the end, whatever the others have left behind
        w.few = 0;
        if (good.empty()) {
            add_good(false);
        }
        closing_waits++;
        for (auto& g : good) {
            g->cl.feed(SIZE_MAX);
            g->cl.push();
            g->cl.pull();
            if (g->ends && g->cl.all_sent() && g->cl.secure() && !g->cl.shut) {
                if (tls && !g->notified) {
                    g->notified = true;
                    g->cl.t->close_notify();
                    g->cl.collect();
                } else {
                    g->cl.half_close();
                }
            }
        }
        for (auto& b : bad) {
            if (c.chance(1, 8)) {
                b->act();
            }
        }
        const size_t m = moved();
        quiet = m == last && w.pending.empty() ? quiet + 1 : 0;
        last = m;
        if (quiet >= 6) {
            if (!probed) {
                probed = true;
                quiet = 0;
                add_good(true);
                return;
            }
            server->stop();
        }
        c.check(closing_waits < 20000, "the clients that behave are not served to the end");
    };
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        cast.attach(*server);
        server->start(8443);
        server.reset();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.check(probed, "the server returned although nobody asked it to");
    for (auto& g : good) {
        const std::string who = std::format("client {}: ", g->cl.tag);
        c.check(!g->cl.t || (g->cl.t->connected && (g->cl.shut || !g->cl.t->failed)), who + "the TLS connection failed");
        c.check(g->cl.all_sent(), who + "not everything could be sent");
        const auto b = g->s.judge(g->cl.out, g->stage);
        c.check(b.empty(), who + b);
        const auto d = diff_calls(g->s.calls(), g->stage.calls);
        c.check(d.empty(), who + d);
        asked += g->stage.calls.size();
    }
    c.label(tls ? "TLS" : "cleartext");
    size_t reached = 0;
    for (auto& b : bad) {
        reached += b->cl.l->taken > 0;
    }
    if (asked >= 3 && reached >= 1) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C18",
               .rule = "a simulated server with 1-5 clients that behave and 1-13 that do not (nine kinds), all "
                       "interleaved, over TLS or cleartext with small buffers; each client that behaves must get "
                       "exactly its own answers, and so must one that comes last; non-trivial = three requests "
                       "answered while something hostile was received",
               .fn = prop};
    p.quick_cases = 10000;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "garbage", "violation", "any stream", "stalled", "refuses to read", "broken TLS records",
                         "broken handshake", "not the protocol", "leaves abruptly", "half-closed"};
    return run_main(argc, argv, p);
}
