// C08: frame payload readers return exactly the payload's content and stay inside it.
#include "h2.h"
#include "hpack/bit_reader.h"
#include "hpack/byte_reader.h"
#include "http2_frame_reader.h"
#include "ion_util.h"

using namespace pbt;

static void settings(Case& c) {
    c.label("SETTINGS");
    const Bytes p = c.bytes(c.flip() ? 6 * c.len(60) : c.len(120));
    Exact e{p};
    ion::Http2FrameReader r{{.length = static_cast<uint32_t>(p.size()), .type = 4, .flags = c.byte(),
                             .stream_id = static_cast<uint32_t>(c.u(0x7fffffff))},
                            e.span()};
    auto got = r.read_settings();
    c.note([&] { return "settings payload " + hex(p); });
    if (p.size() % 6) {
        c.nontrivial();
        c.label("SETTINGS of a bad size");
        c.check(!got, [&] { return std::format("settings payload of {} octets accepted", p.size()); });
        return;
    }
    c.check(got.has_value(), [&] { return std::format("settings payload of {} octets refused", p.size()); });
    c.check(got->size() == p.size() / 6, [&] {
        return std::format("{} settings read from {} octets", got->size(), p.size());
    });
    for (size_t i = 0; i < got->size(); i++) {
        const uint64_t id = h2::get(p.data() + 6 * i, 2), v = h2::get(p.data() + 6 * i + 2, 4);
        c.check((*got)[i].identifier == id && (*got)[i].value == v, [&] {
            return std::format("setting {} of {} read as {}={}", i, hex(p), (*got)[i].identifier,
                               (*got)[i].value);
        });
    }
    if (got->size() > 1) {
        c.nontrivial();
    }
}

static void headers(Case& c) {
    c.label("HEADERS");
    const uint8_t flags = c.byte();
    Bytes p;
    if (c.chance(1, 3)) {
        p = c.bytes(c.len(40));  // anything, mostly too short
        if (!p.empty() && c.flip()) {
            p[0] = static_cast<uint8_t>(c.u(std::min<size_t>(p.size() + 6, 255)));
        }
    } else {
        const size_t block = c.chance(1, 10) ? c.u(16000) : c.len(200);
        const uint8_t pad = c.chance(1, 4) ? 255 : c.byte();
        if (flags & h2::PADDED) {
            p.push_back(pad);
        }
        if (flags & h2::PRIO) {
            h2::append(p, c.bytes(5));
        }
        h2::append(p, c.bytes(block));
        if (flags & h2::PADDED) {
            p.insert(p.end(), pad, 0);
        }
        if (c.chance(1, 4) && !p.empty()) {
            p.resize(p.size() - 1 - c.u(std::min<size_t>(p.size() - 1, 300)));  // cut short
        }
    }
    // the model: what RFC 9113 section 6.2 calls the field block fragment
    bool ok = true;
    size_t from = 0, to = p.size(), pad = 0;
    if (flags & h2::PADDED) {
        if (from < to) {
            pad = p[from++];
        } else {
            ok = false;
        }
    }
    if (flags & h2::PRIO) {
        ok &= to - from >= 5;
        from += 5;
    }
    ok = ok && from <= to && pad <= to - from;
    to -= ok ? pad : 0;
    Exact e{p};
    ion::Http2FrameReader r{{.length = static_cast<uint32_t>(p.size()), .type = 1, .flags = flags,
                             .stream_id = static_cast<uint32_t>(1 + c.u(1000))},
                            e.span()};
    c.note([&] { return std::format("HEADERS flags {:#x} payload {}", flags, hex(p, 64)); });
    auto in_payload = [&](std::span<const uint8_t> s) {
        return s.empty() || (s.data() >= e.span().data() &&
                             s.data() + s.size() <= e.span().data() + e.span().size());
    };
    const auto b = r.headers_block();
    c.check(in_payload(b), "header block outside the payload");
    if (ok) {
        c.check(Bytes(b.begin(), b.end()) == Bytes(p.begin() + from, p.begin() + to), [&] {
            return std::format("block of flags {:#x} payload {} read as {}", flags, hex(p), hex(b));
        });
    }
    if constexpr (requires { r.read_headers_block(); }) {
        const auto rb = r.read_headers_block();
        c.check(rb.has_value() == ok, [&] {
            return std::format("flags {:#x} payload {} {}", flags, hex(p), ok ? "refused" : "accepted");
        });
        c.check(!rb || (in_payload(*rb) && rb->size() == b.size()), "the two block readers differ");
    }
    if (!ok) {
        c.nontrivial();
        c.label("padding or priority does not fit");
    } else if (flags & (h2::PADDED | h2::PRIO)) {
        c.nontrivial();
        c.label("padded or with priority");
    }
}

static void fixed(Case& c) {
    const bool goaway = c.flip();
    c.label(goaway ? "GOAWAY" : "WINDOW_UPDATE");
    const size_t n = goaway ? 8 : 4;
    const Bytes p = c.bytes(c.chance(1, 3) ? n : c.len(20));
    Exact e{p};
    ion::Http2FrameReader r{{.length = static_cast<uint32_t>(p.size()),
                             .type = static_cast<uint8_t>(goaway ? 7 : 8), .flags = c.byte(), .stream_id = 0},
                            e.span()};
    c.note([&] { return std::format("{} payload {}", goaway ? "GOAWAY" : "WINDOW_UPDATE", hex(p)); });
    auto value = [&](auto&& got, bool fits, auto&& good) {
        if constexpr (requires { got.has_value(); *got; }) {
            c.check(got.has_value() == fits, [&] {
                return std::format("payload {} of {} octets {}", hex(p), p.size(), fits ? "refused" : "accepted");
            });
            if (fits) {
                good(*got);
            }
        } else if (fits) {
            good(got);
        }
    };
    if (goaway) {
        value(r.read_goaway(), p.size() >= n, [&](auto& g) {
            c.check(g.last_stream_id == (h2::get(p.data(), 4) & 0x7fffffff) &&
                        g.error_code == h2::get(p.data() + 4, 4),
                    [&] { return std::format("GOAWAY {} read as {} {}", hex(p), g.last_stream_id, g.error_code); });
        });
    } else {
        value(r.read_window_update(), p.size() == n, [&](auto& w) {
            c.check(w.window_size_increment == (h2::get(p.data(), 4) & 0x7fffffff), [&] {
                return std::format("WINDOW_UPDATE {} read as {}", hex(p), w.window_size_increment);
            });
        });
    }
    if (p.size() != n) {
        c.nontrivial();
        c.label("payload of the wrong size");
    }
}

static void bytes_reader(Case& c) {
    c.label("octet reader");
    const Bytes p = c.bytes(c.len(60));
    Exact e{p};
    ByteReader r{e.span()};
    size_t pos = 0;
    c.note([&] { return "octets " + hex(p); });
    bool past = false;
    for (size_t i = 0, n = 1 + c.len(40); i < n; i++) {
        const size_t left = p.size() - pos;
        switch (c.u(3)) {
            case 0: {
                const auto b = r.read_byte();
                c.note("read_byte");
                c.check(b.has_value() == (left > 0), [&] { return std::format("read_byte with {} left", left); });
                if (b) {
                    c.check(*b == p[pos], [&] { return std::format("octet {} read as {}", pos, *b); });
                    pos++;
                } else {
                    past = true;
                }
                break;
            }
            case 1: {
                const auto b = r.peek_byte();
                c.note("peek_byte");
                c.check(b.has_value() == (left > 0), [&] { return std::format("peek_byte with {} left", left); });
                c.check(!b || *b == p[pos], [&] { return std::format("octet {} peeked as {}", pos, *b); });
                break;
            }
            case 2: {
                const size_t k = c.chance(1, 12) ? SIZE_MAX - c.u(80) : c.u(left + 2);
                c.note([&] { return std::format("has_bytes {}", k); });
                c.check(r.has_bytes(k) == (k <= left), [&] { return std::format("has_bytes({}) with {} left", k, left); });
                break;
            }
            default: {
                const size_t k = c.chance(1, 12) ? SIZE_MAX - c.u(80) : c.u(c.flip() ? 4 : left + 2);
                c.note([&] { return std::format("read_bytes {}", k); });
                const auto s = r.read_bytes(k);
                c.check(s.has_value() == (k <= left), [&] { return std::format("read_bytes({}) with {} left", k, left); });
                if (s) {
                    c.check(Bytes(s->begin(), s->end()) == Bytes(p.begin() + pos, p.begin() + pos + k), [&] {
                        return std::format("read_bytes({}) at {} of {}: {}", k, pos, hex(p), hex(*s));
                    });
                    pos += k;
                } else {
                    past = true;
                }
            }
        }
    }
    if (past && pos > 0) {
        c.nontrivial();
        c.label("octets exhausted");
    }
}

static void bits_reader(Case& c) {
    c.label("bit reader");
    const Bytes p = c.bytes(c.len(20));
    Exact e{p};
    ion::BitReader r{e.span()};
    c.note([&] { return "bits of " + hex(p); });
    for (size_t i = 0; i < p.size() * 8; i++) {
        c.check(r.has_more(), [&] { return std::format("bits of {} exhausted after {}", hex(p), i); });
        const bool want = p[i / 8] >> (7 - i % 8) & 1;
        c.check(r.read_bit() == want, [&] { return std::format("bit {} of {} read as {}", i, hex(p), !want); });
    }
    c.check(!r.has_more(), [&] { return std::format("bits of {} not exhausted", hex(p)); });
    r.read_bit();
    c.check(!r.has_more(), "more bits after the end");
    if (p.size() > 1) {
        c.nontrivial();
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 40));
    switch (c.weighted({2, 4, 2, 2, 1})) {
        case 0:
            return settings(c);
        case 1:
            return headers(c);
        case 2:
            return fixed(c);
        case 3:
            return bytes_reader(c);
        default:
            return bits_reader(c);
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C08",
               .rule = "payloads of every kind in heap blocks of exactly their size, well formed, "
                       "cut short or arbitrary, against a model of RFC 9113 section 6; non-trivial "
                       "= malformed, padded, exhausted, or several elements",
               .fn = prop};
    p.quick_cases = 4000000;
    p.thorough_cases = 1000000000;
    p.required_labels = {"SETTINGS of a bad size", "padding or priority does not fit",
                         "padded or with priority", "payload of the wrong size", "octets exhausted",
                         "bit reader"};
    return run_main(argc, argv, p);
}
