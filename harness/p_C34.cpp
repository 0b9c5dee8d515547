// C34: the server waits, rather than works, while there is nothing it can do.
#include "wild.h"

using namespace pbt;
using namespace sim;

static void prop(Case& c) {
    quiet_logs();
    const bool tls = c.chance(2, 5);
    World w(c);
    Wild h(w, tls);
    h.faults = false;
    h.cast.other_body = c.flip() ? 100 : c.u(5000);
    w.few = 0;
    w.plant = false;
    w.idle_advance = 25ms;
    std::unique_ptr<ion::Http2Server> server;
    Bad* refuse = nullptr;  // a client that sends a lot and never reads
    const size_t phases = 1 + c.len(12);
    size_t phase = 0, resting = 0, busy = 0, turns = 0, timeouts_before = 0, waits_before = 0;
    size_t with_blocked = 0, with_unread = 0, rests = 0;
    w.step = [&] {
        if (resting == 0 && turns > 0) {
            turns--;
            h.turn();
            if (refuse == nullptr && c.chance(1, 6)) {
                h.bad.push_back(std::make_unique<Bad>(w, tls, Evil::Refuse));
                refuse = h.bad.back().get();
            }
            if (refuse && !refuse->done) {
                refuse->cl.feed(30000);
                refuse->cl.push(1 + c.skewed(30000));
                if (!refuse->cl.secure()) {
                    refuse->cl.pull(30000);
                }
            }
            w.interrupt = false;
            return;
        }
        if (resting == 0) {  // nobody does anything from here on
            if (c.chance(1, 4)) {  // but there are connections which it cannot accept
                w.shortage = c.pick<int>({EMFILE, ENFILE, ENOBUFS, ENOMEM});
                for (size_t i = 0, n = 1 + c.u(2); i < n; i++) {
                    h.bad.push_back(std::make_unique<Bad>(w, tls, Evil::Stall));
                }
                c.label("connections that cannot be accepted");
            }
            size_t alive = 0, blocked = 0, unread = 0;
            for (auto& l : w.links) {
                if (l->accepted && !l->closed) {
                    alive++;
                    const int left = World::unread(l->server);
                    unread += left > 0;
                    blocked += left > 0 && World::unread(l->client) > 1000;
                }
            }
            with_blocked += blocked;
            with_unread += unread;
            busy = alive + w.pending.size();
            resting = 12 + 6 * busy;
            timeouts_before = w.timeouts;
            waits_before = w.waits;
            rests++;
            return;
        }
        if (--resting == 0) {
            const size_t waits = w.waits - waits_before, idle = w.timeouts - timeouts_before;
            // every connection may have something to be read, then something to be written, and an end
            // while it cannot accept connections it may try again now and then
            const size_t tries = w.shortage ? 2 * idle : 0;
            w.shortage = 0;
            c.check(waits - idle <= 4 + 4 * busy + tries, [&] {
                std::string s;
                for (auto& l : w.links) {
                    if (l->accepted && !l->closed) {
                        s += std::format("; client {}: {} octets unread by the server, {} by the client", l->id, World::unread(l->server), World::unread(l->client));
                    }
                }
                return std::format("with nothing happening, the server was woken {} times in {} waits ({} connections{})", waits - idle, waits, busy, s);
            });
            if (phase++ >= phases) {
                server->stop();
            }
            turns = 1 + c.len(12);
        } else if (w.asked_last >= 0 && w.asked_last < 1) {
            c.fail(std::format("the server does not wait: it polls with a timeout of {} ms", w.asked_last));
        }
    };
    turns = 1 + c.len(20);
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        h.cast.attach(*server);
        server->start(8443);
        server.reset();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.label(tls ? "TLS" : "cleartext");
    if (with_unread) {
        c.label("something left unread");
    }
    if (with_blocked) {
        c.label("answers blocked while requests wait");
        c.nontrivial();
    }
    if (rests > 2 && w.links.size() > 2) {
        c.label("several rests");
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C34",
               .rule = "a simulated server with clients of every kind (well-behaved, refusing to read, broken, half-closed) "
                       "interrupted by rests in which nobody does anything; non-trivial = during a rest a connection "
                       "has requests waiting while its answers are blocked",
               .fn = prop};
    p.quick_cases = 5000;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "something left unread", "answers blocked while requests wait", "several rests", "connections that cannot be accepted"};
    return run_main(argc, argv, p);
}
