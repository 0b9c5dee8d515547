// Protocol violations of every kind C13 lists.
#pragma once
#include "conn.h"

namespace conn {
inline Item violation(Case& c, Gen& g) {
    Item it{.kind = Item::Violation};
    const uint32_t stream = g.new_stream();
    // a field list that would otherwise be a fine request
    auto fine = [&] {
        return *g.block({{":method", "GET"}, {":path", "/after"}, {":scheme", "http"}, {"x", c.str(c.len(20), "abc")}});
    };
    switch (c.u(8)) {
        case 0: {
            it.what = "frame longer than 16384";
            const size_t n = 16385 + (c.flip() ? c.u(3) : c.skewed(60000));
            const auto type = static_cast<uint8_t>(c.pick<int>({0, 1, 4, 8, 2, 0x20, 7}));
            Bytes p = c.flip() ? Bytes(n, 0) : c.bytes(c.u(50));
            if (type == h2::HEADERS) {
                Bytes b = fine();
                b.resize(n, 0);
                p = b;
            }
            it.wire = h2::header(static_cast<uint32_t>(n), type, c.byte(), type == 4 || type == 7 ? 0 : stream);
            p.resize(c.chance(1, 3) ? std::min(n, p.size()) : n, 0);
            h2::append(it.wire, p);
            break;
        }
        case 1: {
            it.what = "SETTINGS of a bad size";
            size_t n = c.flip() ? 1 + c.u(4) : c.u(200);
            n += n % 6 == 0;
            it.wire = h2::frame(h2::SETTINGS, c.chance(1, 6) ? c.byte() & ~h2::ACK : 0, 0, c.bytes(n));
            break;
        }
        case 2: {
            it.what = "padding does not fit";
            Bytes p;
            uint8_t flags = h2::END_HEADERS | h2::END_STREAM | h2::PADDED;
            const bool prio = c.flip();
            if (!c.chance(1, 6)) {  // otherwise not even the pad length is there
                Bytes b = fine();
                if (b.size() > 250) {
                    b.resize(250);
                }
                const size_t room = b.size();
                p.push_back(static_cast<uint8_t>(room + 1 + c.u(254 - room)));
                if (prio) {
                    flags |= h2::PRIO;
                    h2::append(p, c.bytes(5));
                }
                h2::append(p, b);
            }
            it.wire = h2::frame(h2::HEADERS, flags, stream, p);
            break;
        }
        case 3: {
            it.what = "priority fields do not fit";
            const bool pad = c.flip();
            Bytes p;
            if (pad) {
                p.push_back(0);
            }
            h2::append(p, c.bytes(c.u(4)));
            it.wire = h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM | h2::PRIO | (pad ? h2::PADDED : 0), stream, p);
            break;
        }
        case 4: {
            it.what = "undecodable header block";
            Bytes b = fine();
            switch (c.u(6)) {
                case 6: {  // more fields than a header list may hold
                    const size_t size = 2000 + c.u(1900);
                    h2::append(b, Bytes{0x40, 0x01, 'b'});
                    h2::append(b, ref::int_encode(size, 7, 0));
                    h2::append(b, Bytes(size, 'v'));
                    b.insert(b.begin(), {0x3f, 0xe1, 0x1f});  // table size 4096
                    b.insert(b.end(), 262144 / (size + 33), 0x80 | 62);
                    c.label("header list too large");
                    break;
                }
                case 0:
                    b.insert(b.begin(), 0x80);  // index 0
                    break;
                case 1:
                    h2::append(b, ref::int_encode(62 + 2000 + c.skewed(1u << 30), 7, 0x80));
                    break;
                case 2:
                    h2::append(b, Bytes{0x00, 0x05, 'a', 'b'});  // cut short
                    break;
                case 3:
                    h2::append(b, Bytes{0x00, 0x84, 0xff, 0xff, 0xff, 0xff, 0x01, 'x'});  // EOS
                    break;
                case 4:
                    h2::append(b, Bytes{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f});  // too large
                    break;
                default:
                    b.insert(b.begin(), {0x3f, 0xe2, 0xff, 0x03});  // table size 65537
                    break;
            }
            it.wire = h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, stream, b);
            break;
        }
        case 5: {
            it.what = "PING not of eight octets";
            size_t n = c.u(c.flip() ? 16 : 300);
            n += n == 8;
            it.wire = h2::frame(h2::PING, c.chance(1, 4) ? h2::ACK : 0, 0, c.bytes(n));
            break;
        }
        case 6: {
            it.what = "stray CONTINUATION frame";
            it.wire = h2::frame(h2::CONTINUATION, c.flip() ? h2::END_HEADERS : 0, stream, c.flip() ? fine() : Bytes{});
            break;
        }
        case 7: {
            it.what = "header block interrupted";
            const Bytes b = fine();
            const size_t cut = c.u(b.size());
            auto part = [&](size_t from, size_t to) {
                return Bytes(b.begin() + static_cast<long>(from), b.begin() + static_cast<long>(to));
            };
            it.wire = h2::frame(h2::HEADERS, c.flip() ? h2::END_STREAM : 0, stream, part(0, cut));
            size_t at = cut;
            for (size_t i = 0, n = c.len(3); i < n; i++) {
                const size_t k = c.u(b.size() - at);
                h2::append(it.wire, h2::frame(h2::CONTINUATION, 0, stream, part(at, at + k)));
                at += k;
            }
            const Bytes rest = part(at, b.size());
            switch (c.u(3)) {
                case 0:  // the rest comes on another stream
                    h2::append(it.wire, h2::frame(h2::CONTINUATION, h2::END_HEADERS, c.flip() ? stream + 2 : 0, rest));
                    break;
                case 1:  // the block is begun anew
                    h2::append(it.wire, h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, c.flip() ? stream : stream + 2,
                                                  c.flip() ? rest : b));
                    break;
                default:  // something else comes first
                    h2::append(it.wire, g.control().wire);
                    if (c.flip()) {
                        h2::append(it.wire, h2::frame(h2::CONTINUATION, h2::END_HEADERS, stream, rest));
                    }
            }
            g.used.erase(std::remove(g.used.begin(), g.used.end(), stream), g.used.end());
            break;
        }
        default: {
            it.what = "WINDOW_UPDATE not of four octets";
            size_t n = c.u(c.flip() ? 8 : 300);
            n += n == 4;
            it.wire = h2::frame(h2::WINDOW_UPDATE, 0, c.flip() ? 0 : stream, c.bytes(n));
        }
    }
    return it;
}

}  // namespace conn
