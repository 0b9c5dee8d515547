// C04: HPACK integers.
#include "hpack/int_decoder.h"
#include <string>
#include <vector>
#include "hpack/int_encoder.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void decode_case(Case& c, const Bytes& in, int prefix) {
    Exact e(in);
    ByteReader r(e.span());
    size_t pos = 0;
    auto want = ref::int_decode(in, pos, prefix);
    auto got = ion::IntegerDecoder::decode(r, static_cast<uint8_t>(prefix));
    c.note([&] {
        return std::format("decode {} prefix {} -> {}", hex(in, 24), prefix,
                           want ? std::to_string(*want) : "error");
    });
    if (!want) {
        c.check(!got.has_value(), [&] {
            return std::format("{} with prefix {} must be an error but gave {}", hex(in), prefix,
                               *got);
        });
        c.label("error input");
        return;
    }
    c.check(got.has_value(), [&] {
        return std::format("{} with prefix {} is {} but was refused", hex(in), prefix, *want);
    });
    c.check(*got == *want, [&] {
        return std::format("{} with prefix {} is {} but gave {}", hex(in), prefix, *want, *got);
    });
    // exactly the integer's octets were consumed
    Bytes rest;
    while (r.has_bytes()) {
        rest.push_back(*r.read_byte());
        c.check(rest.size() <= in.size(), "reader never ends");
    }
    c.check(rest == Bytes(in.begin() + static_cast<long>(pos), in.end()), [&] {
        return std::format("{} with prefix {}: {} octets left instead of {}", hex(in), prefix,
                           rest.size(), in.size() - pos);
    });
}

static uint64_t value(Case& c, int prefix) {
    const uint64_t m = (1ULL << prefix) - 1;
    switch (c.u(3)) {
        case 0:
            return c.u(600);
        case 1: {  // around each boundary of the encoding
            static const uint64_t steps[] = {0, 128, 16384, 2097152, 268435456};
            const uint64_t v = m + steps[c.u(4)] + c.u(4);
            return v < 2 ? 0 : v - 2;
        }
        case 2:
            return c.skewed(0xffffffffULL);
        default:
            return 0xffffffffULL - c.u(600);
    }
}

static void prop(Case& c) {
    quiet_logs();
    const int prefix = static_cast<int>(1 + c.u(7));
    switch (c.weighted({5, 3, 3, 1})) {
        case 0: {
            const uint64_t v = value(c, prefix);
            const Bytes want = ref::int_encode(v, prefix, 0);
            const auto got =
                ion::IntegerEncoder::encode(static_cast<uint32_t>(v), static_cast<uint8_t>(prefix));
            c.note([&] { return std::format("encode {} prefix {} -> {}", v, prefix, hex(want)); });
            c.check(got == want, [&] {
                return std::format("{} with prefix {} encodes to {} instead of {}", v, prefix,
                                   hex(got), hex(want));
            });
            Bytes in = want;
            if (prefix < 8) {
                in[0] |= static_cast<uint8_t>(c.u((1u << (8 - prefix)) - 1) << prefix);
            }
            const Bytes tail = c.bytes(c.u(4));
            in.insert(in.end(), tail.begin(), tail.end());
            decode_case(c, in, prefix);
            if (want.size() > 1) {
                c.nontrivial();
                c.label(std::format("{} octets", want.size()));
            }
            break;
        }
        case 1: {  // beyond the limits, redundant continuation octets, cut short
            const uint64_t v = c.flip() ? value(c, prefix) : 0xffffff00ULL + c.skewed(0xfffffffffffULL);
            Bytes in = ref::int_encode_long(v, prefix, 0, static_cast<int>(c.u(6)));
            if (c.chance(1, 3)) {
                in.resize(c.u(in.size()));
            } else {
                const Bytes tail = c.bytes(c.u(3));
                in.insert(in.end(), tail.begin(), tail.end());
            }
            decode_case(c, in, prefix);
            c.nontrivial();
            break;
        }
        case 2: {  // any octets
            Bytes in = c.bytes(c.u(9));
            if (!in.empty() && c.flip()) {
                in[0] |= static_cast<uint8_t>((1 << prefix) - 1);
                for (size_t i = 1; i < in.size(); i++) {
                    if (!c.chance(1, 4)) {
                        in[i] |= 0x80;
                    }
                }
                c.nontrivial();
            }
            decode_case(c, in, prefix);
            break;
        }
        default: {
            const int bad = c.chance(1, 3) ? 0 : static_cast<int>(c.range(9, 255));
            const uint32_t v = static_cast<uint32_t>(c.skewed(0xffffffffULL));
            bool threw = false;
            try {
                (void)ion::IntegerEncoder::encode(v, static_cast<uint8_t>(bad));
            } catch (const std::exception&) {
                threw = true;
            }
            c.check(threw, [&] { return std::format("prefix {} accepted by the encoder", bad); });
            c.label("bad prefix");
            c.nontrivial();
        }
    }
}

// every value in 0..1023 for each prefix, and the neighbourhood of each size boundary
static std::vector<std::vector<uint64_t>> seeds() {
    std::vector<std::vector<uint64_t>> t;
    for (uint64_t p = 0; p < 8; p++) {
        for (uint64_t v = 0; v <= 600; v++) {
            t.push_back({p, 0, 0, v});
            t.push_back({p, 0, 3, v});
        }
        for (uint64_t s = 0; s <= 4; s++) {
            for (uint64_t d = 0; d <= 4; d++) {
                t.push_back({p, 0, 1, s, d});
            }
        }
    }
    return t;
}

int main(int argc, char** argv) {
    Property p{.id = "C04",
               .rule = "values skewed to encoding boundaries x prefixes x surrounding bits, "
                       "over-long/overflowing/truncated encodings and raw octets, against a "
                       "reference codec; non-trivial = multi-octet or invalid encodings",
               .fn = prop};
    p.quick_cases = 3000000;
    p.thorough_cases = 2000000000;
    p.seed_tapes = seeds;
    p.mutate_ratio = 0.3;
    return run_main(argc, argv, p);
}
