// C14: connection control frames are answered as HTTP/2 requires.
#include "conn.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    Rig rig;
    Gen g{c};
    Session s;
    const size_t n = c.len(c.chance(1, 8) ? 120 : 25);
    size_t settings = 0, others = 0;
    for (size_t i = 0; i < n; i++) {
        if (c.chance(1, 5)) {
            s.items.push_back(g.request(4));
            rig.stage.plans.push_back({.resp = make_response(c, g.resp_fields, false)});
        } else {
            s.items.push_back(g.control());
        }
        settings += s.items.back().kind == Item::Settings;
        if (s.items.back().kind == Item::Ping) {
            c.label("PING");
        }
        others += s.items.back().kind == Item::Other || s.items.back().kind == Item::WindowUpdate;
    }
    const bool goaway = c.chance(1, 3);
    size_t after = 0;
    Bytes in = s.bytes();
    const size_t live = in.size();
    if (goaway) {
        s.items.push_back(g.goaway());
        in = s.bytes();
    }
    s.note(c);
    if (goaway) {
        for (size_t i = 0, k = c.len(5); i < k; i++) {
            const Item it = c.flip() ? g.request(3) : g.control();
            c.note([&] { return "afterwards: " + it.what; });
            h2::append(in, it.wire);
            after++;
        }
    }
    auto& w = *rig.wire;
    w.in = in;
    rig.open();
    Output o;
    s.announce(o);

    // the SETTINGS frame is there as soon as the preface is, and not before
    c.check(rig.settle(), "does not settle");
    c.check(w.out.empty(), "octets sent before anything was received");
    if (c.chance(1, 2)) {
        w.deliver = c.u(23);
        c.check(rig.settle(), "does not settle");
        c.check(w.out.empty(), "octets sent before the preface was complete");
        w.deliver = 24;
        c.check(rig.settle(), "does not settle");
        Output first;
        first.feed(w.out);
        c.check(first.error.empty() && first.at_boundary() && first.events.size() == 1 &&
                    first.events[0].kind == Event::Settings,
                [&] { return std::format("after the bare preface: {} {}", hex(w.out), first.error); });
        c.label("bare preface");
    }
    if (c.chance(1, 3) && !goaway) {
        // item by item: each is answered before the next is sent
        size_t at = 24;
        w.deliver = std::max(w.deliver, at);
        for (size_t i = 0; i < s.items.size(); i++) {
            at += s.items[i].wire.size();
            w.deliver = at;
            c.check(rig.settle(), "does not settle");
            Output part;
            s.announce(part);
            part.feed(w.out);
            const auto bad = s.judge(part, rig.stage, i + 1);
            c.check(bad.empty(), [&] { return std::format("after item {}: {}", i, bad); });
        }
        c.label("item by item");
    }
    c.check(deliver_all(c, rig, delivery_style(c, in.size())), "the connection does not settle");
    c.check(rig.discarded == goaway, [&] {
        return goaway ? "the connection goes on after GOAWAY" : "the connection was discarded";
    });
    (void)live;
    o.feed(w.out);
    const auto bad = s.judge(o, rig.stage, SIZE_MAX, goaway);
    c.check(bad.empty(), bad);
    c.check(o.count(Event::Settings) == 1, [&] { return std::format("{} SETTINGS frames sent", o.count(Event::Settings)); });
    const auto d = diff_calls(s.calls(), rig.stage.calls);
    c.check(d.empty(), d);
    if (goaway && after) {
        c.label("more after GOAWAY");
    }
    if (settings && others) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C14",
               .rule = "sessions made mostly of SETTINGS, PING, acknowledgements, WINDOW_UPDATE and unknown "
                       "frames with any flags and streams, also delivered item by item, the exact "
                       "list of replies is required; non-trivial = SETTINGS among ignored frames",
               .fn = prop};
    p.quick_cases = 80000;
    p.thorough_cases = 100000000;
    p.required_labels = {"bare preface", "item by item", "more after GOAWAY", "PING"};
    return run_main(argc, argv, p);
}
