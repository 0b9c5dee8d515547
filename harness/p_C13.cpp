// C13: a protocol violation ends the connection and nothing after it is acted on.
#include "violation.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    Rig rig;
    Gen g{c};
    Session s;
    const bool bad_preface = c.chance(1, 8);
    std::string kind;
    size_t before = 0, after = 0;
    Bytes in;
    if (bad_preface) {
        kind = "bad preface";
        std::string p = h2::PREFACE;
        if (c.chance(1, 3)) {
            p = c.pick<std::string>({"GET / HTTP/1.1\r\nHost: example\r\n\r\n", "PRI * HTTP/1.1\r\n\r\nSM\r\n\r\n"});
        } else {
            p[c.u(p.size() - 1)] ^= static_cast<char>(1 + c.u(254));
        }
        p.resize(std::max<size_t>(p.size(), 24));
        h2::append(in, p);
    } else {
        h2::append(in, h2::PREFACE);
        for (size_t i = 0, n = c.len(10); i < n; i++) {
            s.items.push_back(c.chance(1, 3) ? g.control() : g.request(5));
            if (s.items.back().kind == Item::Request) {
                before++;
                Plan p;
                p.resp = make_response(c, g.resp_fields, c.chance(1, 6));
                rig.stage.plans.push_back(p);
            }
        }
        s.items.push_back(violation(c, g));
        kind = s.items.back().what;
        for (auto& i : s.items) {
            h2::append(in, i.wire);
        }
    }
    c.label(kind);
    s.note(c);
    const size_t cut = in.size();
    for (size_t i = 0, n = c.len(6); i < n; i++) {
        const Item it = c.chance(1, 3) ? g.control() : c.chance(1, 4) ? violation(c, g) : g.request(5);
        after += it.kind == Item::Request;
        c.note([&] { return "afterwards: " + it.what; });
        h2::append(in, it.wire);
    }
    auto& w = *rig.wire;
    w.in = in;
    w.eof = c.chance(1, 4);
    rig.open();
    // everything up to the violation may come in pieces; the rest comes with it or right after
    const int style = delivery_style(c, cut);
    c.note([&] { return std::format("{} octets up to the violation, {} in all, style {}", cut, in.size(), style); });
    c.check(deliver_all(c, rig, style), "the connection does not settle");
    c.check(rig.discarded, [&] { return "the connection goes on after: " + kind; });
    Output o;
    s.announce(o);
    o.feed(w.out);
    if (bad_preface) {
        c.check(o.error.empty(), o.error);
        for (auto& e : o.events) {
            c.check(e.kind == Event::Settings || e.kind == Event::Goaway, "answered after a bad preface");
        }
        c.check(rig.stage.calls.empty(), "a handler was called after a bad preface");
    } else {
        const auto bad = s.judge(o, rig.stage, SIZE_MAX, true);
        c.check(bad.empty(), bad);
        const auto d = diff_calls(s.calls(), rig.stage.calls);
        c.check(d.empty(), d);
        uint32_t last = 0;  // the highest stream that was answered
        for (auto& r : o.responses) {
            last = std::max(last, r.stream);
        }
        for (auto& e : o.events) {
            if (e.kind != Event::Goaway) {
                continue;
            }
            c.check(e.code != 0, "GOAWAY without an error code");
            // a client may send again what it asked for on any stream above the one named
            c.check(e.stream >= last, [&] {
                return std::format("GOAWAY names stream {} as the last although stream {} was answered", e.stream, last);
            });
            if (last > 0) {
                c.label("GOAWAY after answers");
            }
        }
    }
    if (before > 0 && after > 0) {
        c.nontrivial();
        c.label("requests before and after");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C13",
               .rule = "sessions with one violation of every listed kind, followed by more requests, "
                       "delivered in any pieces; non-trivial = requests both before and after it",
               .fn = prop};
    p.quick_cases = 80000;
    p.thorough_cases = 100000000;
    p.required_labels = {"bad preface", "frame longer than 16384", "SETTINGS of a bad size",
                         "padding does not fit", "priority fields do not fit",
                         "undecodable header block", "WINDOW_UPDATE not of four octets",
                         "PING not of eight octets", "header list too large", "GOAWAY after answers", "stray CONTINUATION frame", "header block interrupted",
                         "requests before and after"};
    return run_main(argc, argv, p);
}
