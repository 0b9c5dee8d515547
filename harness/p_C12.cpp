// C12: handlers see exactly the request the client sent.
#include "conn.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    Rig rig;
    Gen g{c};
    Session s;
    g.fields.max_value = c.chance(1, 10) ? 3000 : c.chance(1, 3) ? 300 : 40;
    const bool vast = c.chance(1, 8);  // a few requests with header blocks of many kilobytes
    if (vast) {
        g.max_block = 65536;
        g.bulk = true;
    }
    if (c.chance(1, 2)) {
        s.items.push_back(g.settings());
    }
    const size_t n = 1 + c.len(vast ? 6 : c.chance(1, 8) ? 100 : 25);
    size_t requests = 0;
    const size_t fields = c.chance(1, 6) ? 60 : 12;
    for (size_t i = 0; i < n; i++) {
        s.items.push_back(c.chance(1, 4) ? g.control() : g.request(fields));
        if (s.items.back().kind == Item::Request) {
            requests++;
            if (s.items.back().wire[4] & h2::PADDED) {
                c.label("padded");
            }
            if (s.items.back().wire[4] & h2::PRIO) {
                c.label("with priority");
            }
            if (s.items.back().block_size > 8000) {
                c.label("header block above 8000 octets");
            }
            if (s.items.back().block_size > 16384) {
                c.label("header block beyond one frame");
            }
            if (ref::list_cost(s.items.back().call.headers) > 128 * 1024) {
                c.label("header list above 128 KiB");
            }
            if (s.items.back().continuations > 0) {
                c.label("continued");
            }
        }
    }
    s.note(c);
    auto& w = *rig.wire;
    w.in = s.bytes();
    rig.open();
    c.check(deliver_all(c, rig, delivery_style(c, w.in.size())), "the connection does not settle");
    c.check(!rig.discarded, "the connection was discarded");
    const auto bad = diff_calls(s.calls(), rig.stage.calls);
    c.check(bad.empty(), bad);
    if (g.enc.stats.indexed_dynamic > 0) {
        c.label("indexed from the dynamic table");
    }
    if (g.enc.stats.evictions > 0) {
        c.label("evictions");
    }
    if (g.enc.stats.huffman > 0) {
        c.label("Huffman");
    }
    if (requests >= 2 && g.enc.stats.indexed_dynamic > 0) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C12",
               .rule = "random sessions whose header blocks use every legal HPACK representation and "
                       "whose frames use every legal layout; handler arguments are compared with "
                       "what was encoded; non-trivial = several requests using the dynamic table",
               .fn = prop};
    p.quick_cases = 40000;
    p.thorough_cases = 100000000;
    p.required_labels = {"padded", "with priority", "indexed from the dynamic table", "evictions",
                         "Huffman", "header block above 8000 octets",
                         "header block beyond one frame", "header list above 128 KiB", "continued"};
    return run_main(argc, argv, p);
}
