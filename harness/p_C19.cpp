// C19: every accepted socket is closed exactly once and nothing leaks.
#include "leaks.h"
#include "wild.h"

using namespace pbt;
using namespace sim;

static std::set<int> descriptors() {
    std::set<int> s;
    for (int i = 0; i < 600; i++) {  // the simulation's own are above
        if (fcntl(i, F_GETFD) >= 0) {
            s.insert(i);
        }
    }
    return s;
}

static void history(Case& c) {
    quiet_logs(c.chance(1, 100));
    const bool tls = c.chance(2, 5);
    World w(c);
    Wild wild(w, tls);
    if (c.chance(1, 40)) {
        wild.crowd(100 + c.u(100));
        w.few = 0;
    }
    const bool fatal = c.chance(1, 20), end_waits = !c.chance(1, 4);
    const size_t turns = c.len(80), fatal_turn = fatal ? c.u(turns) : SIZE_MAX;
    if (c.chance(1, 60)) {
        (c.flip() ? w.bind_fails : w.listen_fails) = true;
        c.label("cannot listen");
    }
    size_t turn = 0, calm = 0, waited = 0, last = 0, stopped = 0;
    std::unique_ptr<ion::Http2Server> server;
    w.step = [&] {
        if (turn < turns) {
            if (turn++ == fatal_turn) {
                w.accept_errors.push_back({c.pick<int>({EBADF, EINVAL, ENOTSOCK, EOPNOTSUPP, EFAULT}), false});
                c.label("fatal error of the listener");
            }
            wild.turn();
            return;
        }
        w.few = 0;
        if (end_waits && calm < 4 && waited++ < 20000) {  // time stands still, nobody does anything but read
            w.idle_advance = ns(0);
            w.interrupt = false;
            size_t moved = w.accepts;
            wild.each([&](Client& cl) {
                cl.pull();
                moved += cl.received + cl.eof + cl.l->taken + cl.l->closed;
            });
            calm = moved == last && w.pending.empty() ? calm + 1 : 0;
            last = moved;
            return;
        }
        if (end_waits) {
            wild.each([&](Client& cl) {
                if ((cl.l->client < 0 || cl.shut) && cl.l->accepted) {
                    // one that could not be watched is found when it has been idle for long enough
                    c.check(cl.l->closed || w.add_fails_seen > 0, [&] { return std::format("the client of descriptor {} {} but the descriptor is still open", cl.l->server, cl.shut ? "sends no more" : "is gone"); });
                    c.label(cl.shut ? "ended by the client" : "hung up");
                }
            });
        }
        stopped = w.open();
        server->stop();
    };
    std::set<int> before, after;
    bool threw = false;
    serve(w, [&] {
        before = descriptors();
        server = std::make_unique<ion::Http2Server>(config(tls));
        wild.cast.attach(*server);
        try {
            server->start(8443);
        } catch (const std::system_error&) {
            threw = true;
        }
        server.reset();
        w.release_sentinels();
        after = descriptors();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.check(!threw || fatal || w.bind_fails || w.listen_fails, "the server gave up although nothing fatal happened");
    size_t accepted = 0, ways = 0, early = 0, late = 0;
    for (auto& l : w.links) {
        accepted += l->accepted;
        c.check(!l->accepted || l->closed, [&] { return std::format("descriptor {} was accepted and never closed", l->server); });
        (l->closed && l->closed_at - l->active_hi > 5s ? late : early)++;
    }
    c.check(w.closes_of_listener == 1 || w.listener < 0, [&] { return std::format("the listening socket is closed {} times", w.closes_of_listener); });
    for (auto fd : after) {
        c.check(before.contains(fd), [&] { return std::format("descriptor {} is left open", fd); });
    }
    for (auto fd : before) {
        c.check(after.contains(fd), [&] { return std::format("descriptor {} is closed by somebody", fd); });
    }
    // clients notice that nobody is there any more
    wild.each([&](Client& cl) {
        if (cl.l->client >= 0 && cl.l->accepted) {
            cl.pull();
            c.check(cl.eof || cl.reset, "a client still has a connection after the end");
        }
    });
    c.label(tls ? "TLS" : "cleartext");
    if (stopped > 0) {
        c.label("open at the end");
    }
    if (late > 0) {
        c.label("timed out");
    }
    if (accepted > stopped && !threw) {
        c.label("ended before");
    }
    if (w.rejected() > 0) {
        c.label("rejected");
    }
    ways = (stopped > 0) + (late > 0) + (accepted > stopped);
    if (accepted >= 3 && ways >= 2) {
        c.nontrivial();
    }
}

static void prop(Case& c) {
    const bool repeat = c.chance(1, 6);
    history(c);
    if (repeat) {
        leaks::repeat(c, [](Case& k) {
            k.chance(1, 6);
            history(k);
        });
        c.label("repeated for leaks");
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C19",
               .rule = "a simulated server with clients of every kind, time, and faults of accept, bind, listen, "
                       "getpeername, setsockopt and epoll_ctl; closed descriptor numbers are taken over by "
                       "sentinels; one history in six is repeated to see whether memory stays allocated; non-trivial = at least three connections that ended in at least two ways",
               .fn = prop};
    p.quick_cases = 14000;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "hung up", "ended by the client", "open at the end", "ended before", "timed out", "rejected", "crowd",
                         "accepting fails", "watching fails", "fatal error of the listener", "cannot listen", "repeated for leaks"};
    return run_main(argc, argv, p);
}
