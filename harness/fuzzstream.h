// Client byte streams of every quality: valid sessions, sessions with mutations, frame soup, noise.
#pragma once
#include "conn.h"

namespace conn {

inline Bytes soup_frame(Case& c, Gen& g) {
    const auto type = static_cast<uint8_t>(c.chance(1, 8) ? c.byte() : c.u(9));
    Bytes p;
    switch (c.u(4)) {
        case 0:
            p = c.bytes(c.len(60));
            break;
        case 1: {
            const size_t n = c.pick<size_t>({0, 1, 3, 4, 5, 6, 7, 8, 9, 12, 16383, 16384});
            p = c.bytes(std::min<size_t>(n, 40));
            p.resize(n, c.byte());
            break;
        }
        case 2:
            if (auto b = g.block({{":method", "GET"}, {":path", "/"}, {"x", "y"}})) {
                p = *b;
            }
            break;
        default: {
            // any HPACK bytes
            for (size_t i = 0, n = c.len(20); i < n; i++) {
                switch (c.u(4)) {
                    case 0:
                        p.push_back(static_cast<uint8_t>(0x80 | c.u(127)));
                        break;
                    case 1:
                        h2::append(p, Bytes{0x40, 0x01, 'a', 0x01, 'b'});
                        break;
                    case 2:
                        p.push_back(static_cast<uint8_t>(0x20 | c.u(31)));
                        break;
                    default:
                        p.push_back(c.byte());
                }
            }
        }
    }
    const uint8_t flags = c.flip() ? static_cast<uint8_t>(c.u(5)) : c.byte();
    Bytes f = h2::frame(type, flags, static_cast<uint32_t>(c.flip() ? c.u(9) : c.skewed(0x7fffffff)), p, c.chance(1, 8));
    if (c.chance(1, 12)) {  // a lying length
        const uint32_t n = static_cast<uint32_t>(c.skewed(0xffffff));
        f[0] = static_cast<uint8_t>(n >> 16);
        f[1] = static_cast<uint8_t>(n >> 8);
        f[2] = static_cast<uint8_t>(n);
    }
    return f;
}

struct Stream {
    Bytes in;
    bool valid = false;
    std::string what;
};
inline Stream any_stream(Case& c, Gen& g, Stage& st, bool big_bodies) {
    Stream s;
    if (c.chance(1, 25)) {
        s.what = "noise";
        s.in = c.bytes(c.len(300));
        return s;
    }
    h2::append(s.in, h2::PREFACE);
    const size_t n = c.len(c.chance(1, 10) ? 60 : 15);
    const auto mode = c.weighted({4, 4, 3});
    for (size_t i = 0; i < n; i++) {
        if (mode == 2 || (mode == 1 && c.chance(1, 4))) {
            const Bytes f = soup_frame(c, g);
            c.note([&] { return "frame " + pbt::hex(f, 48); });
            h2::append(s.in, f);
            continue;
        }
        const Item it = c.chance(1, 3) ? g.control() : c.chance(1, 10) ? g.incomplete() : g.request(6);
        c.note([&] { return it.what; });
        h2::append(s.in, it.wire);
    }
    for (size_t i = 0; i < n; i++) {
        Plan p;
        p.resp = make_response(c, g.resp_fields, big_bodies && i < 3);
        if (c.chance(1, 12)) {
            p.throws = static_cast<Throw>(1 + c.u(5));
        }
        st.plans.push_back(std::move(p));
    }
    s.valid = mode == 0;
    s.what = mode == 0 ? "valid session" : mode == 1 ? "session with odd frames" : "frame soup";
    if (c.chance(1, 6) && mode != 0 && s.in.size() > 1) {
        s.what += ", mutated";
        for (size_t i = 0, k = 1 + c.u(4); i < k; i++) {
            const size_t at = c.u(s.in.size() - 1);
            switch (c.u(2)) {
                case 0:
                    s.in[at] = c.byte();
                    break;
                case 1:
                    s.in.erase(s.in.begin() + at);
                    break;
                default:
                    s.in.insert(s.in.begin() + at, c.byte());
            }
            if (s.in.size() < 2) {
                break;
            }
        }
    } else if (c.chance(1, 8)) {
        s.what += ", cut short";
        s.in.resize(c.u(s.in.size()));
    }
    return s;
}
}  // namespace conn
