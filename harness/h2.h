// HTTP/2 framing for the harnesses, written from RFC 9113 and sharing nothing with /repo.
#pragma once
#include <cstdint>
#include <string>

#include "pbt.h"

namespace h2 {
using pbt::Bytes;

enum Type : uint8_t {
    DATA = 0,
    HEADERS = 1,
    PRIORITY = 2,
    RST_STREAM = 3,
    SETTINGS = 4,
    PUSH_PROMISE = 5,
    PING = 6,
    GOAWAY = 7,
    WINDOW_UPDATE = 8,
    CONTINUATION = 9
};
enum Flag : uint8_t { END_STREAM = 1, ACK = 1, END_HEADERS = 4, PADDED = 8, PRIO = 0x20 };

inline const std::string PREFACE = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";

inline void put(Bytes& b, uint64_t v, int octets) {
    for (int i = octets - 1; i >= 0; i--) {
        b.push_back(static_cast<uint8_t>(v >> (8 * i)));
    }
}
inline uint64_t get(const uint8_t* p, int octets) {
    uint64_t v = 0;
    for (int i = 0; i < octets; i++) {
        v = v << 8 | p[i];
    }
    return v;
}
inline void append(Bytes& a, const Bytes& b) {
    a.insert(a.end(), b.begin(), b.end());
}
inline void append(Bytes& a, const std::string& b) {
    a.insert(a.end(), b.begin(), b.end());
}
inline Bytes header(uint32_t length, uint8_t type, uint8_t flags, uint32_t stream, bool reserved = false) {
    Bytes b;
    put(b, length, 3);
    b.push_back(type);
    b.push_back(flags);
    put(b, (stream & 0x7fffffff) | (reserved ? 0x80000000u : 0), 4);
    return b;
}
inline Bytes frame(uint8_t type, uint8_t flags, uint32_t stream, const Bytes& payload,
                   bool reserved = false) {
    Bytes b = header(static_cast<uint32_t>(payload.size()), type, flags, stream, reserved);
    append(b, payload);
    return b;
}
struct Setting {
    uint16_t id;
    uint32_t value;
};
inline Bytes settings_payload(const std::vector<Setting>& s) {
    Bytes b;
    for (auto& x : s) {
        put(b, x.id, 2);
        put(b, x.value, 4);
    }
    return b;
}
}  // namespace h2
