// C15: a failing handler or an incomplete request costs one response, nothing more.
#include "conn.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    Rig rig;
    Gen g{c};
    Session s;
    const size_t n = 1 + c.len(c.chance(1, 8) ? 80 : 16);
    size_t failing = 0, fine = 0;
    // which calls fail before they come to the handler: a middleware throws as it wraps it
    std::set<size_t> in_wrapping;
    std::vector<Call> expected;
    rig.stage.router.add_middleware([&](ion::RouteHandler next) -> ion::RouteHandler {
        const size_t k = rig.stage.calls.size();
        if (in_wrapping.contains(k)) {
            rig.stage.calls.push_back(expected.at(k));
            do_throw(rig.stage.plans[k].throws);
        }
        return next;
    });
    for (size_t i = 0; i < n; i++) {
        switch (c.weighted({3, 3, 2, 1})) {
            case 0:
                s.items.push_back(g.request(5));
                rig.stage.plans.push_back({.resp = make_response(c, g.resp_fields, c.chance(1, 8))});
                fine++;
                break;
            case 1: {
                s.items.push_back(g.request(5));
                Plan p;
                p.throws = static_cast<Throw>(1 + c.u(5));
                s.items.back().what += std::format(" (throws kind {})", static_cast<int>(p.throws));
                if (c.chance(1, 6)) {
                    in_wrapping.insert(rig.stage.plans.size());
                    c.label("middleware throws");
                }
                rig.stage.plans.push_back(p);
                c.label(std::format("throws kind {}", static_cast<int>(p.throws)));
                failing++;
                break;
            }
            case 2:
                s.items.push_back(g.incomplete());
                c.label("incomplete request");
                failing++;
                break;
            default:
                s.items.push_back(g.control());
        }
    }
    s.note(c);
    expected = s.calls();
    auto& w = *rig.wire;
    w.in = s.bytes();
    rig.open();
    try {
        c.check(deliver_all(c, rig, delivery_style(c, w.in.size())), "the connection does not settle");
    } catch (const Failure&) {
        throw;
    } catch (...) {
        c.fail("an exception leaves the connection");
    }
    c.check(!rig.discarded, "the connection was discarded");
    Output o;
    s.announce(o);
    o.feed(w.out);
    const auto bad = s.judge(o, rig.stage);
    c.check(bad.empty(), bad);
    const auto d = diff_calls(s.calls(), rig.stage.calls);
    c.check(d.empty(), d);
    if (failing && fine) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C15",
               .rule = "sessions mixing answered requests, handlers throwing six kinds of objects, "
                       "requests without :method or :path and control frames; non-trivial = failing "
                       "and succeeding requests on one connection",
               .fn = prop};
    p.quick_cases = 50000;
    p.thorough_cases = 100000000;
    p.required_labels = {"throws kind 1", "throws kind 2", "throws kind 3", "throws kind 4",
                         "throws kind 5", "throws kind 6", "middleware throws", "incomplete request"};
    return run_main(argc, argv, p);
}
