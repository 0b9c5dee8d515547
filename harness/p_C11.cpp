// C11: every request gets exactly one complete, faithful response on its own stream.
#include "conn.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    Rig rig;
    Gen g{c};
    Session s;
    const size_t n = 1 + c.len(c.chance(1, 10) ? 80 : 20);
    if (c.chance(3, 4)) {
        s.items.push_back(g.settings());
    }
    size_t big = 0, requests = 0, resp_fields = 0;
    bool huge = c.chance(1, 400);
    const bool all_at_once = huge;
    ref::FieldGen rf;
    rf.max_value = c.chance(1, 6) ? 500 : 60;
    for (size_t i = 0; i < n; i++) {
        if (c.chance(1, 4)) {
            s.items.push_back(g.control());
            continue;
        }
        s.items.push_back(g.request(6));
        requests++;
        Plan p;
        p.resp = make_response(c, rf, big < 3);
        if (huge && !p.resp.body.empty()) {
            huge = false;
            const auto piece = std::move(p.resp.body);
            const size_t size = c.chance(1, 6) ? (1u << 24) + c.u(4) - 2 : c.chance(1, 2) ? (1u << (20 + c.u(2))) + c.u(4) - 2 : c.u(4000000);
            p.resp.body.resize(size);
            for (size_t k = 0; k < size; k++) {
                p.resp.body[k] = static_cast<uint8_t>(piece[k % piece.size()] + k / piece.size() * 37);
            }
            c.label("body of megabytes");
        }
        big += p.resp.body.size() > 8000;
        resp_fields += p.resp.headers.size();
        c.note([&] { return std::format("plan: {} with {} fields, body of {}", p.resp.status_code, p.resp.headers.size(), p.resp.body.size()); });
        if (p.resp.body.size() > 16384) {
            c.label("body of several frames");
        }
        size_t fs = 0;
        for (auto& h : p.resp.headers) {
            fs += h.name.size() + h.value.size();
        }
        if (fs > 16384) {
            c.label("fields beyond one frame");
        }
        rig.stage.plans.push_back(std::move(p));
    }
    s.note(c);
    auto& w = *rig.wire;
    w.in = s.bytes();
    w.eof = c.chance(1, 3);
    if (c.chance(1, 4) && !all_at_once) {
        w.write_cap = 50 + c.skewed(40000);
    }
    rig.open();
    c.check(deliver_all(c, rig, delivery_style(c, w.in.size())), "the connection does not settle");
    if (w.eof) {
        c.label("client closes after its requests");
        c.check(rig.discarded, "the connection outlives the client's end of stream");
    } else {
        c.check(!rig.discarded, "the connection was discarded");
    }
    Output o;
    s.announce(o);
    o.feed(w.out);
    const auto bad = s.judge(o, rig.stage);
    c.check(bad.empty(), bad);
    c.check(rig.stage.calls.size() == requests, "number of handler calls");
    if (requests >= 2) {
        c.nontrivial();
        c.label("several requests");
    }
    if (o.table_resizes) {
        c.label("client shrinks the header table");
    }
    for (auto& r : o.responses) {
        if (r.header_frames > 1) {
            c.label("CONTINUATION sent");
        }
    }
    if (resp_fields > 80) {
        c.label("many response fields");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C11",
               .rule = "random sessions of requests and control frames against planned responses "
                       "(statuses, fields up to several frames, bodies around every frame size); "
                       "the output is decoded by an independent client; non-trivial = at least two "
                       "requests on one connection",
               .fn = prop};
    p.quick_cases = 40000;
    p.thorough_cases = 100000000;
    p.required_labels = {"body of several frames", "fields beyond one frame", "CONTINUATION sent",
                         "client shrinks the header table", "several requests",
                         "client closes after its requests"};
    return run_main(argc, argv, p);
}
