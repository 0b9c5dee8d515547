// C02: malformed or truncated HPACK input is rejected, never misread.
#include "hpack/header_block_decoder.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void app(Bytes& b, const Bytes& x) {
    b.insert(b.end(), x.begin(), x.end());
}

// one deliberately broken (or borderline) field
static void bad_field(Case& c, Bytes& out, ref::Encoder& enc) {
    const uint8_t high[] = {0x80, 0x40, 0x00, 0x10};
    const int prefix[] = {7, 6, 4, 4};
    const size_t rep = c.u(3);
    auto put_str = [&](const std::string& s) { enc.put_string(c, out, s); };
    switch (c.u(8)) {
        case 0: {  // index around the end of the tables, or zero
            const uint64_t end = 61 + enc.table.e.size();
            const uint64_t idx = c.chance(1, 6) ? 0 : end + c.u(3);
            c.label("index near the end of the tables");
            app(out, ref::int_encode(idx, prefix[rep], high[rep]));
            if (rep != 0) {
                put_str("v");
            }
            break;
        }
        case 1: {  // huge index
            app(out, ref::int_encode(c.skewed(0xffffffffULL), prefix[rep], high[rep]));
            c.label("arbitrary index");
            if (rep != 0) {
                put_str("value");
            }
            break;
        }
        case 2: {  // integers at and over the 32-bit limit, over-long, or endless
            c.label("extreme integer");
            const uint64_t v = c.flip() ? 0xffffffffULL + c.u(300) : c.skewed(0x3fffffffffffULL);
            const size_t where = c.u(4);
            const int extra = static_cast<int>(c.u(6));
            if (where < 4) {
                app(out, ref::int_encode_long(v, prefix[where], high[where], extra));
            } else {
                app(out, ref::int_encode_long(v, 5, 0x20, extra));
            }
            if (c.flip()) {
                put_str("x");
            }
            break;
        }
        case 3: {  // Huffman data with any ending
            c.label("Huffman ending");
            std::vector<bool> bits;
            const size_t n = c.u(4);
            auto put = [&](uint32_t code, int len) {
                for (int i = len - 1; i >= 0; i--) {
                    bits.push_back((code >> i) & 1);
                }
            };
            for (size_t i = 0; i < n; i++) {
                auto& h = ref::huffman()[c.u(c.chance(1, 10) ? 256 : 255)];
                put(h.code, h.len);
            }
            switch (c.u(3)) {
                case 0:
                    break;
                case 1: {
                    const size_t k = c.u(32);
                    for (size_t i = 0; i < k; i++) {
                        bits.push_back(true);
                    }
                    break;
                }
                case 2: {
                    const size_t k = c.u(12);
                    for (size_t i = 0; i < k; i++) {
                        bits.push_back(c.flip());
                    }
                    break;
                }
                default: {
                    auto& h = ref::huffman()[c.u(256)];
                    const int k = static_cast<int>(c.u(static_cast<uint64_t>(h.len)));
                    put(h.code >> (h.len - k), k);
                }
            }
            const bool pad = c.flip();
            while (bits.size() % 8) {
                bits.push_back(pad);
            }
            Bytes h(bits.size() / 8);
            for (size_t i = 0; i < bits.size(); i++) {
                if (bits[i]) {
                    h[i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
                }
            }
            out.push_back(0x00);
            const bool in_name = c.flip();
            if (!in_name) {
                app(out, {0x01, 'n'});
            }
            app(out, ref::int_encode(h.size(), 7, 0x80));
            app(out, h);
            if (in_name) {
                app(out, {0x01, 'v'});
            }
            break;
        }
        case 4: {  // strings around 4096 octets
            c.label("string near the limit");
            const size_t n = 4096 + c.u(4) - 2;
            const uint8_t ch = c.byte();
            const std::string s(n, static_cast<char>(ch));
            out.push_back(0x40);
            if (c.flip()) {
                put_str(s);
                put_str("v");
            } else {
                put_str("n");
                put_str(s);
            }
            break;
        }
        case 5: {  // table size updates around the limit
            c.label("size update near the limit");
            const size_t n = c.flip() ? 65536 + c.u(4) - 2 : c.skewed(0xffffffffULL);
            app(out, ref::int_encode(n, 5, 0x20));
            break;
        }
        case 6: {  // a length that promises more than there is
            c.label("length beyond the block");
            out.push_back(c.pick<uint8_t>({0x40, 0x00, 0x10, 0x41, 0x01}));
            const size_t have = c.u(10);
            const uint64_t say = have + (c.flip() ? 1 + c.u(2) : c.skewed(0xffffffffULL));
            if (c.flip() && (out.back() & 0x0f) == 0) {
                put_str("name");
            }
            app(out, ref::int_encode(say, 7, c.flip() ? 0x80 : 0));
            app(out, c.bytes(have));
            break;
        }
        case 7: {  // a few octets that stand for very much
            if (!c.chance(1, 8)) {
                app(out, c.bytes(c.len(40)));
                c.label("raw bytes");
                break;
            }
            c.label("list near the limit");
            const size_t size = 2000 + c.u(2090);
            const size_t max = 256 * 1024;
            out.push_back(0x40);
            app(out, ref::int_encode(1, 7, 0));
            out.push_back('b');
            app(out, ref::int_encode(size, 7, 0));
            app(out, Bytes(size, 'v'));
            const size_t n = max / (size + 33) + c.u(2);
            out.insert(out.end(), n - 1, 62 | 0x80);
            if (c.flip() && n == max / (size + 33)) {  // exactly the limit, or one more
                const size_t rest = max - n * (size + 33) + c.u(1);
                if (rest >= 33) {
                    app(out, {0x00, 0x01, 'r'});
                    app(out, ref::int_encode(rest - 33, 7, 0));
                    app(out, Bytes(rest - 33, 'r'));
                }
            }
            break;
        }
        default: {
            c.label("lone first octet");
            out.push_back(c.byte());
        }
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 64));
    const size_t limits[] = {4096, 65536, 100, 256};
    const size_t m = limits[c.u(3)];
    ion::DynamicTable table{m};
    ion::HeaderBlockDecoder dec{table};
    ref::Encoder enc{m, 65536};
    ref::Decoder oracle{m, 4096, 65536, 256 * 1024};
    ref::FieldGen gen;
    const int before = static_cast<int>(c.u(4));
    const int total = before + 1 + static_cast<int>(c.u(2));
    for (int b = 0; b < total; b++) {
        Bytes blk;
        enc.table = oracle.table;
        if (c.chance(1, 8)) {
            enc.put_size_update(blk, c.skewed(65536));
        }
        app(blk, enc.block(c, gen.list(c, 6)));
        if (b >= before) {
            const size_t how = c.u(4);
            if (how == 0 && !blk.empty()) {
                blk.resize(c.u(blk.size() - 1));
                c.label("truncated");
            } else if (how == 1 && !blk.empty()) {
                const size_t k = 1 + c.u(3);
                for (size_t i = 0; i < k; i++) {
                    const size_t at = c.u(blk.size() - 1);
                    if (c.flip()) {
                        blk[at] = c.byte();
                    } else {
                        blk[at] ^= static_cast<uint8_t>(1u << c.u(7));
                    }
                }
                c.label("octets changed");
            } else if (how == 2) {
                Bytes f;
                bad_field(c, f, enc);
                const bool front = c.chance(1, 3);
                if (front) {
                    f.insert(f.end(), blk.begin(), blk.end());
                    blk = f;
                } else {
                    app(blk, f);
                }
                if (c.chance(1, 4) && !blk.empty()) {
                    blk.resize(blk.size() - std::min<size_t>(blk.size(), 1 + c.u(3)));
                }
            } else if (how == 3) {
                bad_field(c, blk, enc);
                bad_field(c, blk, enc);
            } else {
                blk = c.bytes(c.len(60));
                c.label("random block");
            }
        }
        auto want = oracle.decode(blk);
        auto got = dec.decode(Exact(blk).span());
        c.note([&] {
            return std::format("block {}: {} -> expected {}", b, hex(blk, 80),
                               want.ok ? ref::show(want.fields) : "an error: " + want.why);
        });
        if (!want.ok) {
            c.check(!got.has_value(), [&] {
                return std::format("block {} must be refused ({}) but decoded to {}", hex(blk),
                                   want.why, ref::show(to_fields(*got)));
            });
            c.label("refused: " + want.why);
            c.nontrivial();
            return;
        }
        if (want.size_update_late && !got.has_value()) {
            return;
        }
        c.check(got.has_value(),
                [&] { return std::format("valid block {} refused", hex(blk)); });
        c.check(to_fields(*got) == want.fields, [&] {
            return std::format("block {} decoded to {} instead of {}", hex(blk),
                               ref::show(to_fields(*got)), ref::show(want.fields));
        });
        if (b >= before) {
            c.nontrivial();
            c.label("altered block still valid");
        }
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C02",
               .rule = "valid histories followed by truncated, altered, hand-broken or random "
                       "blocks, judged by a strict reference decoder in the same state; non-trivial "
                       "= the judged block was altered or broken",
               .fn = prop};
    p.quick_cases = 300000;
    p.thorough_cases = 400000000;
    p.mutate_ratio = 0.6;
    p.required_labels = {"refused: index out of range",   "refused: bad index integer",
                         "refused: value: bad Huffman data", "refused: value: string too long",
                         "refused: size update too large", "refused: value: string cut short",
                         "refused: name index out of range", "refused: bad name index integer",
                         "refused: bad size update integer", "refused: list too large",
                         "list near the limit", "altered block still valid"};
    return run_main(argc, argv, p);
}
