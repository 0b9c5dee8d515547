// C16: idle connections are closed after five seconds and active ones are kept.
#include "sim.h"

using namespace pbt;
using namespace sim;
using conn::Gen;
using conn::Stage;

static constexpr ns LIMIT = 5s;
static std::string show(ns t) {
    return std::format("{:.9f} s", static_cast<double>(t.count()) / 1e9);
}

struct Visitor {
    Client cl;
    Stage stage;
    bool leaves = false, checked = false, slow = false;
    Visitor(World& w, bool tls, int sb, int cb, tls::Client::Options o) : cl(w, tls, sb, cb, o) {}
};

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    const bool tls = c.chance(2, 5);
    World w(c);
    vclock::now = ns(1000s) + ns(static_cast<int64_t>(c.skewed(1000000000)));
    w.last_wait = vclock::now;
    w.idle_advance = c.pick<ns>({ns(1us), ns(25ms)});
    w.few = c.chance(1, 4) ? static_cast<int>(1 + c.u(2)) : 0;
    Cast cast;
    std::vector<std::unique_ptr<Visitor>> all;
    std::unique_ptr<ion::Http2Server> server;
    const bool slow_handlers = c.chance(1, 8);
    size_t expired = 0, kept_late = 0, blocked = 0;
    auto arrive = [&] {
        tls::Client::Options o;
        o.version = c.pick<int>({0, TLS1_3_VERSION, TLS1_2_VERSION});
        auto v = std::make_unique<Visitor>(w, tls, c.chance(1, 3) ? 0 : static_cast<int>(2000 + c.skewed(30000)), 0, o);
        v->slow = c.chance(1, 4);  // sends everything, then reads a little at a time
        Gen gen{c};
        gen.tag = v->cl.tag;
        h2::append(v->cl.todo, h2::PREFACE);
        for (size_t i = 0, n = 1 + c.len(6); i < n; i++) {
            if (!v->slow && c.chance(1, 4)) {
                const auto it = gen.control();
                if (it.kind == conn::Item::Settings) {
                    v->cl.out.announce(it.table_sizes);
                }
                h2::append(v->cl.todo, it.wire);
            } else {
                h2::append(v->cl.todo, gen.request(4).wire);
                ion::HttpResponse r{};
                r.status_code = 200;
                r.body.resize(v->slow || c.chance(1, 3) ? c.u(400000) : c.u(100), 'b');
                v->stage.plans.push_back({.resp = r});
            }
        }
        if (slow_handlers) {
            v->stage.during = [&](size_t) {
                if (c.chance(1, 3)) {
                    vclock::advance(c.pick<ns>({ns(1s), ns(4999ms), ns(5s), ns(5001ms), ns(20s)}));
                    c.label("slow handler");
                }
            };
        }
        cast.stages[v->cl.tag] = &v->stage;
        all.push_back(std::move(v));
    };
    // what the server may take for activity, at the latest: whole records only over TLS
    auto last_activity = [&](Visitor& v) {
        Link& l = *v.cl.l;
        ns at = l.accepted_at;
        size_t taken = 0, given = 0;
        for (auto& m : l.history) {
            bool active = !tls;
            if (tls && v.cl.hs_size != SIZE_MAX && m.taken >= v.cl.hs_size) {
                active = taken < v.cl.hs_size;
                for (auto e : v.cl.record_ends) {
                    active |= taken < e && e <= m.taken;
                }
                for (auto e : v.cl.in_record_ends) {
                    active |= given < e && e <= m.given;
                }
            }
            if (active) {
                at = m.lo;
            }
            taken = m.taken;
            given = m.given;
        }
        return at;
    };
    auto judge_closed = [&](Visitor& v) {
        Link& l = *v.cl.l;
        v.checked = true;
        if (v.leaves) {
            return;
        }
        v.cl.pull();
        c.check(v.cl.out.error.empty(), v.cl.out.error);
        const ns at = last_activity(v);
        const ns idle = l.closed_at - at;
        c.note([&] {
            std::string s = std::format("client {}: accepted {}; handshake {}; records in", l.id, show(l.accepted_at), v.cl.hs_size);
            for (auto e : v.cl.record_ends) s += std::format(" {}", e);
            s += ", out";
            for (auto e : v.cl.in_record_ends) s += std::format(" {}", e);
            for (auto& m : l.history) s += std::format("\n  {} to {}: {} in, {} out", show(m.lo), show(m.hi), m.taken, m.given);
            return s;
        });
        const bool handshaking = tls && (v.cl.hs_size == SIZE_MAX || l.taken < v.cl.hs_size);
        c.note([&] { return std::format("client {} closed after {} ({} octets in, {} out{})", l.id, show(idle), l.taken, l.given, handshaking ? ", handshaking" : ""); });
        if (handshaking) {
            c.check(l.closed_at - l.accepted_at > LIMIT, [&] { return std::format("client {} closed {} after it connected, handshaking", l.id, show(l.closed_at - l.accepted_at)); });
            c.label("handshake timed out");
        } else {
            c.check(idle > LIMIT, [&] { return std::format("client {} closed only {} after it was active", l.id, show(idle)); });
        }
        expired++;
        if (l.taken == 0) {
            c.label("never said anything");
        } else if (v.cl.sent < 24 && !tls) {
            c.label("within the preface");
        } else if (!v.stage.calls.empty()) {
            c.label("after requests");
        }
    };
    const size_t turns = 10 + c.len(80);
    size_t turn = 0;
    w.step = [&] {
        for (auto& v : all) {
            Link& l = *v->cl.l;
            if (!l.accepted || v->checked) {
                continue;
            }
            if (l.closed) {
                judge_closed(*v);
                continue;
            }
            const ns idle = vclock::now - l.active_hi;
            c.check(idle <= LIMIT, [&] { return std::format("client {} still open, idle for {} ({} octets in, {} out)", l.id, show(idle), l.taken, l.given); });
            if (tls && (v->cl.hs_size == SIZE_MAX || l.taken < v->cl.hs_size)) {
                c.check(vclock::now - l.accepted_at <= LIMIT, [&] { return std::format("client {} still open, handshaking for {}", l.id, show(vclock::now - l.accepted_at)); });
            }
            kept_late += vclock::now - l.accepted_at > LIMIT;
            if (v->slow && l.given > 100000) {
                blocked++;
            }
        }
        if (turn++ >= turns) {
            server->stop();
            for (auto& v : all) {
                v->checked = true;
            }
            return;
        }
        if (all.empty() || (all.size() < 7 && c.chance(1, 5))) {
            arrive();
        }
        for (size_t k = 0, n = c.u(2 * all.size()); k < n; k++) {
            auto& v = *all[c.u(all.size() - 1)];
            if (v.slow && c.chance(5, 6)) {
                v.cl.feed(SIZE_MAX);
                v.cl.push(SIZE_MAX);
                v.cl.pull(v.cl.all_sent() ? 1 + c.skewed(60000) : SIZE_MAX);
                continue;
            }
            const size_t m = c.chance(1, 3) ? 1 + c.u(20) : c.chance(1, 2) ? SIZE_MAX : 1 + c.skewed(20000);
            switch (c.weighted({5, 5, 6, v.leaves ? 0u : c.chance(1, 6)})) {
                case 0:
                    v.cl.feed(m);
                    v.cl.push(c.flip() ? m : SIZE_MAX);
                    break;
                case 1:
                    v.cl.push(m);
                    break;
                case 2:
                    v.cl.pull(m);
                    break;
                default:
                    v.leaves = true;
                    c.flip() ? v.cl.close() : v.cl.half_close();
            }
        }
        switch (c.weighted({4, 3, 2, 2, 2, 2, 1})) {
            case 0:
                break;
            case 1:
                vclock::advance(ns(1ms) * static_cast<int64_t>(c.u(3000)));
                break;
            case 2:
                vclock::advance(ns(4s));
                break;
            case 3:  // to just before, at or just after the moment somebody expires
                if (!all.empty()) {
                    Link& l = *all[c.u(all.size() - 1)]->cl.l;
                    const ns then = (l.active_hi > l.accepted_at && c.chance(2, 3) ? l.active_hi : l.accepted_at) + LIMIT + c.pick<ns>({ns(-1), ns(0), ns(1), ns(1ms), ns(-1ms), ns(999ms)});
                    if (l.accepted && then > vclock::now) {
                        vclock::now = then;
                        c.label("around the limit");
                    }
                }
                break;
            case 4:
                vclock::advance(LIMIT);
                break;
            case 5:
                vclock::advance(LIMIT + c.pick<ns>({ns(1), ns(-1), ns(1ms), ns(-1ms), ns(25ms)}));
                break;
            default:
                vclock::advance(ns(1s) * static_cast<int64_t>(c.skewed(100000)));
        }
        if (c.chance(1, 20)) {
            w.interrupt = true;
        }
    };
    serve(w, [&] {
        server = std::make_unique<ion::Http2Server>(config(tls));
        cast.attach(*server);
        server->start(8443);
        server.reset();
    });
    c.check(w.trouble.empty(), w.trouble);
    c.label(tls ? "TLS" : "cleartext");
    if (kept_late) {
        c.label("kept for longer than the limit");
    }
    if (blocked) {
        c.label("blocked on writing");
    }
    if (expired >= 1 && kept_late >= 1) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    sim::init();
    Property p{.id = "C16",
               .rule = "a simulated server and clock; up to seven clients sending and reading pieces of sessions "
                       "with long answers in any phase, time advancing by steps that include the nanosecond "
                       "before, at and after the limit; non-trivial = somebody expired and somebody stayed for "
                       "longer than five seconds",
               .fn = prop};
    p.quick_cases = 16000;
    p.thorough_cases = 100000000;
    p.required_labels = {"TLS", "cleartext", "handshake timed out", "never said anything", "within the preface", "after requests",
                         "around the limit", "kept for longer than the limit", "blocked on writing", "slow handler"};
    return run_main(argc, argv, p);
}
