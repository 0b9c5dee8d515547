// C01: valid HPACK header blocks decode to exactly the fields that were sent.
#include "hpack/header_block_decoder.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void fields_equal(Case& c, const std::vector<ion::HttpHeader>& got, const ref::Fields& want,
                         const Bytes& block, int n) {
    c.check(to_fields(got) == want, [&] {
        return std::format("block {} ({}) decoded to {} instead of {}", n, hex(block),
                           ref::show(to_fields(got)), ref::show(want));
    });
}

static constexpr size_t MAX_LIST = 256 * 1024;

static void prop(Case& c) {
    quiet_logs();
    const bool ng = c.chance(1, 6);
    const size_t limits[] = {4096, 65536, 256, 100, 64, 0, 33, 1000};
    const size_t m = ng ? 4096 : c.chance(1, 8) ? c.u(70) : limits[c.u(7)];
    ion::DynamicTable table{m};
    ion::HeaderBlockDecoder dec{table};
    ref::FieldGen gen;
    gen.max_value = c.chance(1, 10) ? 4096 : c.chance(1, 3) ? 900 : 120;
    c.note([&] { return std::format("table limit {}{}", m, ng ? ", libnghttp2 encoder" : ""); });
    const int blocks = static_cast<int>(1 + (c.chance(1, 10) ? c.u(60) : c.u(9)));
    const size_t per_block = c.chance(1, 8) ? 90 : 14;
    if (ng) {
        ref::NgDeflater enc{4096};
        for (int b = 0; b < blocks; b++) {
            if (c.chance(1, 6)) {
                enc.change_table_size(c.skewed(4096));
                c.label("nghttp2 size update");
            }
            auto f = gen.list(c, per_block);
            std::vector<bool> never;
            for (size_t i = 0; i < f.size(); i++) {
                never.push_back(c.chance(1, 8));
            }
            Bytes blk = enc.encode(f, never);
            c.note([&] { return std::format("block {}: {}", b, ref::show(f)); });
            auto got = dec.decode(Exact(blk).span());
            c.check(got.has_value(),
                    [&] { return std::format("valid block {} ({}) refused", b, hex(blk)); });
            fields_equal(c, *got, f, blk, b);
        }
        c.nontrivial();
        c.label("nghttp2 encoder");
        return;
    }
    ref::Encoder enc{m, 65536};
    for (int b = 0; b <= blocks; b++) {
        Bytes blk;
        ref::Fields f;
        if (b == blocks) {
            // every entry the two tables share, oldest and newest alike
            const size_t n = enc.table.e.size();
            for (size_t i = 0; i < n && i < 200; i++) {
                const uint64_t idx = 62 + (n > 200 ? i * n / 200 : i);
                f.push_back(*enc.table.at(idx));
                Bytes x = ref::int_encode(idx, 7, 0x80);
                blk.insert(blk.end(), x.begin(), x.end());
            }
        } else {
            if (c.chance(1, 5)) {
                const int n = c.chance(1, 3) ? 2 : 1;
                for (int k = 0; k < n; k++) {
                    size_t v;
                    if (c.chance(1, 3) && !enc.table.e.empty()) {
                        // exactly at, one below or one above what some number of entries needs
                        size_t keep = c.u(enc.table.e.size() - 1) + 1;
                        size_t s = 0;
                        for (size_t i = 0; i < keep; i++) {
                            s += ref::Table::cost(enc.table.e[i]);
                        }
                        v = std::min<size_t>(65536, s + c.u(2) - 1);
                    } else {
                        v = c.skewed(65536);
                    }
                    c.note([&] { return std::format("size update {}", v); });
                    enc.put_size_update(blk, v);
                }
            }
            f = gen.list(c, per_block);
            if (!f.empty() && c.chance(1, 1000)) {  // as much as one block may come to
                const ref::Field again{"b", std::string(2000 + c.u(2000), 'v')};
                const size_t left = MAX_LIST - std::min(MAX_LIST, ref::list_cost(f));
                f.insert(f.end(), left / ref::Table::cost(again), again);
                const size_t rest = MAX_LIST - std::min(MAX_LIST, ref::list_cost(f));
                if (rest >= 33 && rest < 4100) {
                    f.push_back({"r", std::string(rest - 33, 'r')});
                    c.label("list of exactly the largest size");
                }
            }
            while (ref::list_cost(f) > MAX_LIST) {
                f.pop_back();
            }
            Bytes rest = enc.block(c, f);
            blk.insert(blk.end(), rest.begin(), rest.end());
        }
        c.note([&] { return std::format("block {}: {} as {}", b, ref::show(f), hex(blk, 80)); });
        auto got = dec.decode(Exact(blk).span());
        c.check(got.has_value(),
                [&] { return std::format("valid block {} ({}) refused", b, hex(blk)); });
        fields_equal(c, *got, f, blk, b);
    }
    auto& s = enc.stats;
    if (s.indexed_dynamic || s.dyn_name) {
        c.label("dynamic entry referenced");
        c.nontrivial();
    }
    if (s.evictions) {
        c.label("eviction");
        c.nontrivial();
    }
    if (s.size_updates) {
        c.label("size update");
    }
    if (s.oversize) {
        c.label("entry larger than the table");
    }
    if (s.long_index) {
        c.label("multi-octet index");
    }
    if (s.huffman) {
        c.label("Huffman string");
    }
    if (s.literal_no && s.literal_never) {
        c.label("literals without and never indexed");
    }
    if (gen.max_value == 4096) {
        c.label("long strings");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C01",
               .rule = "random histories of header blocks from a reference encoder making every "
                       "legal choice (and from libnghttp2's encoder), 1-61 blocks per decoder; "
                       "non-trivial = a dynamic entry is referenced, evicted or resized away",
               .fn = prop};
    p.quick_cases = 50000;
    p.thorough_cases = 100000000;
    p.required_labels = {"dynamic entry referenced", "eviction", "size update",
                         "entry larger than the table", "multi-octet index", "nghttp2 encoder",
                         "list of exactly the largest size"};
    return run_main(argc, argv, p);
}
