// C31: asking the server to stop ends it promptly from any state.
#include "signal_handler.h"
#include "wild.h"

using namespace pbt;
using namespace sim;

enum class When { BeforeStart, Waiting, InHandler, OnAccept, OnClose, Idle, Kinds };
enum class How { Stop, Int, Term, Kinds };

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    const bool tls = c.chance(2, 5);
    World w(c);
    Wild wild(w, tls);
    if (c.chance(1, 40)) {
        wild.crowd(100 + c.u(100));
    }
    const auto when = static_cast<When>(c.weighted({1, 6, 4, 2, 2, 1}));
    const auto how = static_cast<How>(c.u(2));
    const auto reason = c.pick<ion::StopReason>({ion::StopReason::Other, ion::StopReason::Signal, ion::StopReason::StdErrPipeBroken});
    const bool again = c.chance(1, 4);  // asked more than once
    const size_t turns = c.len(60), at = c.u(turns);
    size_t turn = 0, waits_after = 0, accepts_after = 0, calls_after = 0, open_then = 0, blocked_then = 0;
    bool asked = false, waiting = false, within_wait = false;
    std::unique_ptr<ion::Http2Server> server;
    auto ask = [&] {
        if (asked && !again) {
            return;
        }
        if (!asked) {
            asked = true;
            within_wait = waiting;
            open_then = w.open();
            wild.each([&](Client& cl) {
                blocked_then += cl.l->accepted && !cl.l->closed && cl.all_sent() && cl.l->in_mark > 0;
            });
            c.note([&] { return std::format("asked to stop, {} open, {}", open_then, waiting ? "waiting" : "busy"); });
        }
        const bool was = w.harness;
        w.harness = false;
        switch (how) {
            case How::Int:
                raise(SIGINT);
                break;
            case How::Term:
                raise(SIGTERM);
                break;
            default:
                server->stop(reason);
        }
        w.harness = was;
    };
    w.step = [&] {
        waiting = true;
        if (asked) {
            waits_after++;
            c.check(!within_wait, "the server waits again although it was asked to stop while it waited before");
            c.check(waits_after <= 1, "the server goes on although it was asked to stop");
        }
        if (turn < turns) {
            wild.turn();
        }
        if ((when == When::Waiting && turn == at) || turn >= turns + (when == When::Idle ? 4 : 0)) {
            ask();
            // a signal ends the wait, another thread does not
            w.interrupt = how != How::Stop || (w.interrupt && c.flip());
        }
        turn++;
        waiting = false;
    };
    size_t countdown = when == When::InHandler || when == When::OnAccept || when == When::OnClose ? c.u(6) : SIZE_MAX;
    auto chance_to = [&](When here) {
        if (asked && within_wait) {
            (here == When::InHandler ? calls_after : here == When::OnAccept ? accepts_after : open_then)++;
        }
        if (when == here && countdown-- == 0) {
            ask();
            c.label(here == When::InHandler ? "within a handler" : here == When::OnAccept ? "while accepting" : "while closing");
        }
    };
    wild.during = [&] { chance_to(When::InHandler); };
    w.on_accept = [&](Link*) { chance_to(When::OnAccept); };
    w.on_close = [&](Link*) {
        if (when == When::OnClose && !asked) {
            chance_to(When::OnClose);
        }
    };
    bool returned = false;
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        wild.cast.attach(*server);
        struct Handlers {
            std::unique_ptr<SignalHandler> h;
            ~Handlers() {
                h.reset();
                signal(SIGPIPE, SIG_IGN);
            }
        } handlers;
        if (how != How::Stop) {
            handlers.h.reset(new SignalHandler(SignalHandler::setup(*server)));
            signal(SIGPIPE, SIG_IGN);
        }
        if (when == When::BeforeStart) {
            ask();
            c.label("before it starts");
        }
        server->start(8443);
        returned = true;
        handlers.h.reset();
        signal(SIGPIPE, SIG_IGN);
        server.reset();
        w.release_sentinels();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.check(asked, "the server returned although nobody asked it to");
    c.check(w.longest >= 0 && w.longest <= 1000, [&] { return std::format("the server waits for {} ms, not noticing that it is to stop", w.longest); });
    c.check(w.closes_of_listener == 1, "the listening socket is still open");
    size_t open_links = 0;
    wild.each([&](Client& cl) {
        Link& l = *cl.l;
        c.check(!l.accepted || l.closed, [&] { return std::format("the connection of client {} is still open", l.id); });
        if (l.client >= 0 && l.accepted) {
            cl.pull();
            c.check(cl.eof || cl.reset, [&] { return std::format("client {} is not told that the connection is closed", l.id); });
        }
        open_links += l.accepted;
    });
    c.label(tls ? "TLS" : "cleartext");
    c.label(how == How::Stop ? "by stop()" : how == How::Int ? "by SIGINT" : "by SIGTERM");
    if (within_wait) {
        c.label(when == When::Idle ? "idle" : "waiting");
    }
    if (blocked_then) {
        c.label("with blocked connections");
    }
    if (again) {
        c.label("asked repeatedly");
    }
    if (open_then >= 2) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C31",
               .rule = "a simulated server with clients of every kind, time and faults, asked to stop by stop() or a "
                       "real signal before it starts, while it waits, within a handler, while it accepts or closes; "
                       "non-trivial = at least two connections were open then",
               .fn = prop};
    p.quick_cases = 20000;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "by stop()", "by SIGINT", "by SIGTERM", "before it starts", "waiting", "idle", "within a handler",
                         "while accepting", "while closing", "with blocked connections", "asked repeatedly"};
    return run_main(argc, argv, p);
}
