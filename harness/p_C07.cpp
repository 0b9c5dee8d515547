// C07: frame headers and fixed-size payloads round-trip through their wire form.
#include "h2.h"
#include "http2_frame_reader.h"
#include "http2_frames.h"
#include "ion_util.h"

using namespace pbt;

static uint64_t number(Case& c, int bits, const char* what) {
    const uint64_t max = bits == 64 ? ~0ull : (1ull << bits) - 1;
    uint64_t v = 0;
    switch (c.u(3)) {
        case 0:
            v = c.u(max);
            break;
        case 1:
            v = c.skewed(max);
            break;
        case 2:
            v = max - c.skewed(max);
            break;
        default:  // one octet set: misplaced or dropped octets show
            v = (1 + c.u(254)) << (8 * c.u((bits - 1) / 8));
            v &= max;
    }
    if (v == max || v == 0) {
        c.label(std::string("boundary ") + what);
    }
    return v;
}

template <class T, size_t N>
static std::span<const uint8_t, N> fixed(const Exact& e) {
    return std::span<const uint8_t, N>{e.span().data(), N};
}

static void same(Case& c, const std::string& what, uint64_t want, uint64_t got, const Bytes& wire) {
    c.check(want == got, [&] {
        return std::format("{} of {}: {:#x} instead of {:#x}", what, hex(wire), got, want);
    });
}

// serialises into a buffer full of junk with guard octets behind it
template <class T>
static Bytes written(Case& c, const T& v) {
    constexpr size_t n = T::wire_size;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[n]);
    const uint8_t junk = c.byte();
    memset(mem.get(), junk, n);
    v.serialize(std::span<uint8_t, n>{mem.get(), n});
    return {mem.get(), mem.get() + n};
}

static void prop(Case& c) {
    quiet_logs();
    switch (c.u(3)) {
        case 0: {
            c.label("frame header");
            const auto length = static_cast<uint32_t>(number(c, 24, "length"));
            const uint8_t type = c.byte(), flags = c.byte();
            const auto stream = static_cast<uint32_t>(number(c, 31, "stream"));
            const bool r = c.flip();
            const Bytes want = h2::header(length, type, flags, stream);
            c.note([&] { return std::format("length {} type {} flags {} stream {} reserved {}", length, type, flags, stream, r); });
            ion::Http2FrameHeader h{.length = length, .type = type, .flags = flags,
                                    .stream_id = stream | (r ? 0x80000000u : 0)};
            const Bytes got = written(c, h);
            c.check(got == want, [&] { return std::format("header written as {} instead of {}", hex(got), hex(want)); });
            Bytes in = h2::header(length, type, flags, stream, c.flip());
            Exact e{in};
            auto back = ion::Http2FrameHeader::parse(fixed<int, 9>(e));
            same(c, "length", length, back.length, in);
            same(c, "type", type, back.type, in);
            same(c, "flags", flags, back.flags, in);
            same(c, "stream", stream, back.stream_id, in);
            ion::Http2FrameReader rd{back, {}};
            same(c, "reader length", length, rd.length(), in);
            same(c, "reader type", type, rd.type(), in);
            same(c, "reader flags", flags, rd.flags(), in);
            same(c, "reader stream", stream, rd.stream_id(), in);
            same(c, "END_STREAM", (flags & 1) != 0, rd.is_end_stream(), in);
            same(c, "END_HEADERS", (flags & 4) != 0, rd.is_end_headers(), in);
            same(c, "PADDED", (flags & 8) != 0, rd.padded(), in);
            same(c, "PRIORITY", (flags & 0x20) != 0, rd.priority(), in);
            if (length > 255 && stream > 255) {
                c.nontrivial();
            }
            break;
        }
        case 1: {
            c.label("setting");
            const auto id = static_cast<uint16_t>(number(c, 16, "setting id"));
            const auto v = static_cast<uint32_t>(number(c, 32, "setting value"));
            c.note([&] { return std::format("setting {} = {}", id, v); });
            const Bytes want = h2::settings_payload({{id, v}});
            const Bytes got = written(c, ion::Http2Setting{.identifier = id, .value = v});
            c.check(got == want, [&] { return std::format("setting written as {} instead of {}", hex(got), hex(want)); });
            Exact e{want};
            auto b = ion::Http2Setting::parse(fixed<int, 6>(e));
            same(c, "identifier", id, b.identifier, want);
            same(c, "value", v, b.value, want);
            if (id > 255 && v > 255) {
                c.nontrivial();
            }
            break;
        }
        case 2: {
            c.label("GOAWAY");
            const auto last = static_cast<uint32_t>(number(c, 31, "last stream"));
            const auto code = static_cast<uint32_t>(number(c, 32, "error code"));
            c.note([&] { return std::format("GOAWAY {} {}", last, code); });
            Bytes want;
            h2::put(want, last, 4);
            h2::put(want, code, 4);
            const Bytes got = written(c, ion::Http2GoAwayPayload{
                .last_stream_id = last | (c.flip() ? 0x80000000u : 0), .error_code = code});
            c.check(got == want, [&] { return std::format("GOAWAY written as {} instead of {}", hex(got), hex(want)); });
            Bytes in = want;
            if (c.flip()) {
                in[0] |= 0x80;
            }
            Exact e{in};
            auto b = ion::Http2GoAwayPayload::parse(fixed<int, 8>(e));
            same(c, "last stream", last, b.last_stream_id, in);
            same(c, "error code", code, b.error_code, in);
            if (last > 255 && code > 255) {
                c.nontrivial();
            }
            break;
        }
        default: {
            c.label("WINDOW_UPDATE");
            const auto inc = static_cast<uint32_t>(number(c, 31, "increment"));
            c.note([&] { return std::format("WINDOW_UPDATE {}", inc); });
            Bytes want;
            h2::put(want, inc, 4);
            const Bytes got = written(c, ion::Http2WindowUpdate{
                .window_size_increment = inc | (c.flip() ? 0x80000000u : 0)});
            c.check(got == want, [&] { return std::format("WINDOW_UPDATE written as {} instead of {}", hex(got), hex(want)); });
            Bytes in = want;
            if (c.flip()) {
                in[0] |= 0x80;
            }
            Exact e{in};
            auto b = ion::Http2WindowUpdate::parse(fixed<int, 4>(e));
            same(c, "increment", inc, b.window_size_increment, in);
            if (inc > 255) {
                c.nontrivial();
            }
        }
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C07",
               .rule = "random values, boundaries and single-octet values for every field, written "
                       "into junk-filled buffers and compared with the RFC 9113 layout, then read "
                       "back with and without reserved bits; non-trivial = the multi-octet fields "
                       "exceed one octet",
               .fn = prop};
    p.quick_cases = 5000000;
    p.thorough_cases = 1000000000;
    p.required_labels = {"frame header", "setting", "GOAWAY", "WINDOW_UPDATE", "boundary length",
                         "boundary stream", "boundary setting value"};
    return run_main(argc, argv, p);
}
