// C03: blocks the server encodes decode to the same fields in any conforming decoder.
#include "hpack/header_block_encoder.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void prop(Case& c) {
    quiet_logs();
    const size_t limits[] = {4096, 65536, 256, 100, 0, 34, 1000};
    const size_t m = c.chance(1, 8) ? c.u(100) : limits[c.u(6)];
    ion::DynamicTable table{m};
    ion::HeaderBlockEncoder enc{table};
    ref::Decoder dec{m, 1 << 24, 0};
    ref::NgInflater ng;
    const bool use_ng = (m == 4096 || m == 65536);
    if (m == 65536) {
        // libnghttp2 keeps 4096 until the encoder's size update: feed it one
        ng.set_table_size(65536);
        c.check(ng.decode({0x3f, 0xe1, 0xff, 0x03}).has_value(), "harness: size update refused");
    }
    ref::FieldGen gen;
    gen.max_value = c.chance(1, 20) ? (use_ng ? 16000 : 40000) :  // libnghttp2 refuses coded strings over 64 KiB
                    c.chance(1, 4) ? 1500 : 100;
    const int blocks = static_cast<int>(1 + (c.chance(1, 6) ? c.u(60) : c.u(9)));
    const size_t per_block = c.chance(1, 5) ? 100 : 12;
    c.note([&] { return std::format("table limit {}", m); });
    bool dyn = false, lng = false, high = false;
    const bool resizes = c.chance(1, 4);
    size_t announced = m;
    for (int b = 0; b < blocks; b++) {
        // the decoder announces other limits (the smallest, then the last, must be followed)
        if constexpr (requires { enc.set_max_table_size(size_t{}); }) {
            if (resizes && b > 0 && c.chance(1, 3)) {
                const int times = static_cast<int>(1 + c.u(2));
                size_t smallest = announced;
                for (int i = 0; i < times; i++) {
                    announced = c.flip() ? c.u(200) : c.u(m);
                    smallest = std::min(smallest, announced);
                    enc.set_max_table_size(announced);
                    if (use_ng) {
                        ng.set_table_size(announced);
                    }
                }
                c.note([&] { return std::format("limit {}, now {}", smallest, announced); });
                dec.table.resize(smallest);  // what a decoder may do at once
                dec.max_table = announced;
                c.label("limit changed");
            }
        }
        auto f = gen.list(c, per_block);
        const size_t count_before = dec.table.e.size();
        auto hdrs = to_headers(f);
        Bytes blk = enc.encode(hdrs);
        c.note([&] { return std::format("block {}: {} as {}", b, ref::show(f), hex(blk, 80)); });
        auto got = dec.decode(blk);
        c.check(got.ok, [&] {
            return std::format("block {} ({}) encoding {} is not decodable: {}", b, hex(blk),
                               ref::show(f), got.why);
        });
        c.check(got.fields == f, [&] {
            return std::format("block {} ({}) encoding {} decodes to {}", b, hex(blk), ref::show(f),
                               ref::show(got.fields));
        });
        c.check(dec.table.max <= announced, [&] {
            return std::format("after block {} ({}) the encoder uses a table of {}, above {}", b,
                               hex(blk), dec.table.max, announced);
        });
        if (use_ng) {
            auto g2 = ng.decode(blk);
            c.check(g2.has_value(), [&] {
                return std::format("block {} ({}) is refused by libnghttp2", b, hex(blk));
            });
            c.check(*g2 == f, [&] {
                return std::format("block {} ({}): libnghttp2 decodes {}", b, hex(blk),
                                   ref::show(*g2));
            });
        }
        if (dec.table.e.size() > 1) {
            dyn = true;
        }
        if (dec.table.e.size() > 66) {
            lng = true;
        }
        for (auto& x : f) {
            for (unsigned char ch : x.second) {
                high |= ch >= 0x80;
            }
        }
        if (count_before > dec.table.e.size()) {
            c.label("net eviction");
        }
    }
    if (dyn) {
        c.nontrivial();
        c.label("dynamic table in use");
    }
    if (lng) {
        c.label("more than 66 entries");
    }
    if (high) {
        c.label("octets above 0x7f");
    }
    if (use_ng) {
        c.label("also judged by libnghttp2");
    }
    if (gen.max_value > 2000) {
        c.label("long values");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C03",
               .rule = "random histories of header lists through one encoder, decoded by a "
                       "reference decoder and (for 4096 and 65536) libnghttp2; non-trivial = the "
                       "dynamic table holds at least two entries",
               .fn = prop};
    p.quick_cases = 60000;
    p.thorough_cases = 100000000;
    p.required_labels = {"dynamic table in use", "more than 66 entries", "octets above 0x7f",
                         "also judged by libnghttp2", "net eviction"};
    return run_main(argc, argv, p);
}
