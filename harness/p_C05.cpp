// C05: Huffman strings decode exactly, and only when RFC 7541 allows them.
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void judge(Case& c, const Bytes& h) {
    auto want = ref::huff_decode(h.data(), h.size());
    if (want && want->size() > 4096) {
        return;
    }
    // as the value of a literal field
    Bytes blk{0x00, 0x01, 'n'};
    Bytes l = ref::int_encode(h.size(), 7, 0x80);
    blk.insert(blk.end(), l.begin(), l.end());
    blk.insert(blk.end(), h.begin(), h.end());
    static thread_local ion::DynamicTable table{4096};
    static thread_local ion::HeaderBlockDecoder dec{table};
    auto got = dec.decode(Exact(blk).span());
    c.note([&] {
        return std::format("Huffman data {} -> {}", hex(h, 40), want ? quote(*want, 40) : "error");
    });
    if (!want) {
        c.label("must be refused");
        c.check(!got.has_value(), [&] {
            return std::format("Huffman data {} must be refused but decoded to {}", hex(h),
                               ref::show(to_fields(*got)));
        });
        return;
    }
    c.check(got.has_value(), [&] {
        return std::format("Huffman data {} (which is {}) refused", hex(h), quote(*want));
    });
    c.check(to_fields(*got) == ref::Fields{{"n", *want}}, [&] {
        return std::format("Huffman data {} decoded to {} instead of {}", hex(h),
                           ref::show(to_fields(*got)), quote(*want));
    });
}

static void prop(Case& c) {
    quiet_logs();
    switch (c.u(5)) {
        case 0: {  // all short octet strings (enumerated by the seed tapes)
            const size_t n = c.u(3);
            judge(c, c.bytes(n));
            break;
        }
        case 1: {  // encode / decode any octet string
            const std::string s = c.binstr(c.len(3000));
            judge(c, ref::huff_encode(s));
            c.nontrivial();
            c.label("round trip of octets");
            break;
        }
        case 2: {  // the encoder's own output is the code of the string
            std::string s = c.binstr(c.len(300));
            ion::DynamicTable t{0};
            ion::HeaderBlockEncoder enc{t};
            Bytes blk = enc.encode({{"x", s}});
            ref::Decoder d{0, 1 << 20, 0};
            auto r = d.decode(blk);
            c.check(r.ok && r.fields == ref::Fields{{"x", s}}, [&] {
                return std::format("the encoder writes {} for {}: {}", hex(blk), quote(s),
                                   r.ok ? ref::show(r.fields) : r.why);
            });
            c.nontrivial();
            c.label("own encoder");
            break;
        }
        case 3:
        case 4: {  // symbols, then an arbitrary ending
            std::vector<bool> bits;
            auto put = [&](uint32_t code, int len) {
                for (int i = len - 1; i >= 0; i--) {
                    bits.push_back((code >> i) & 1);
                }
            };
            const size_t n = c.len(40);
            for (size_t i = 0; i < n; i++) {
                auto& h = ref::huffman()[c.u(255)];
                put(h.code, h.len);
            }
            switch (c.u(4)) {
                case 0:
                    put(0x3fffffff, 30);
                    c.label("EOS");
                    break;
                case 1: {
                    const size_t k = c.u(40);
                    for (size_t i = 0; i < k; i++) {
                        bits.push_back(true);
                    }
                    c.label("run of ones");
                    break;
                }
                case 2: {
                    auto& h = ref::huffman()[c.u(256)];
                    const int k = static_cast<int>(c.u(static_cast<uint64_t>(h.len)));
                    put(h.code >> (h.len - k), k);
                    c.label("partial code");
                    break;
                }
                case 3: {
                    const size_t k = c.u(16);
                    for (size_t i = 0; i < k; i++) {
                        bits.push_back(c.flip());
                    }
                    break;
                }
                default:
                    break;
            }
            const size_t more = c.chance(1, 4) ? c.u(3) : 0;
            for (size_t i = 0; i < more; i++) {
                auto& h = ref::huffman()[c.u(255)];
                put(h.code, h.len);
            }
            const bool pad = !c.chance(1, 4);
            while (bits.size() % 8) {
                bits.push_back(pad);
            }
            const size_t fill = c.chance(1, 4) ? c.u(4) : 0;
            for (size_t i = 0; i < fill * 8; i++) {
                bits.push_back(true);
            }
            Bytes h(bits.size() / 8);
            for (size_t i = 0; i < bits.size(); i++) {
                if (bits[i]) {
                    h[i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
                }
            }
            judge(c, h);
            c.nontrivial();
            break;
        }
        default:
            judge(c, c.bytes(c.len(30)));
            c.nontrivial();
    }
}

// every string of up to two octets, and every pair of symbols
static std::vector<std::vector<uint64_t>> seeds() {
    std::vector<std::vector<uint64_t>> t;
    t.push_back({0, 0});
    for (uint64_t a = 0; a < 256; a++) {
        t.push_back({0, 1, a});
        for (uint64_t b = 0; b < 256; b++) {
            t.push_back({0, 2, a, b});
        }
    }
    for (uint64_t a = 0; a < 256; a++) {
        for (uint64_t b = 0; b < 256; b += 5) {
            t.push_back({1, 0, 2, a, (a + b) & 255});  // weighted draw 0 -> length 2
        }
    }
    return t;
}

int main(int argc, char** argv) {
    Property p{.id = "C05",
               .rule = "all octet strings of length 0-2, symbol runs with every kind of ending, and "
                       "random octets, decoded as a literal's value and compared with a strict "
                       "bit-level reference; non-trivial = built from symbols or longer than two "
                       "octets",
               .fn = prop};
    p.quick_cases = 1500000;
    p.thorough_cases = 1000000000;
    p.seed_tapes = seeds;
    p.mutate_ratio = 0.3;
    return run_main(argc, argv, p);
}
