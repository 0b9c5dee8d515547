#include "hpack_ref.h"

#include <cstdlib>

namespace ref {
namespace {
#include "rfc_tables.inc"
}
const HuffCode (&huffman())[257] {
    return RFC_HUFFMAN;
}
const char* const (&static_table())[61][2] {
    return RFC_STATIC;
}

Bytes int_encode(uint64_t value, int prefix, uint8_t high) {
    return int_encode_long(value, prefix, high, 0);
}

Bytes int_encode_long(uint64_t value, int prefix, uint8_t high, int extra) {
    const uint64_t m = (1ULL << prefix) - 1;
    Bytes b;
    if (value < m) {
        b.push_back(static_cast<uint8_t>(high | value));
        return b;
    }
    b.push_back(static_cast<uint8_t>(high | m));
    uint64_t rest = value - m;
    while (rest >= 128) {
        b.push_back(static_cast<uint8_t>(rest % 128 + 128));
        rest /= 128;
    }
    b.push_back(static_cast<uint8_t>(rest));
    for (int i = 0; i < extra; i++) {
        b.back() |= 0x80;
        b.push_back(0);
    }
    return b;
}

std::optional<uint64_t> int_decode(const Bytes& d, size_t& pos, int prefix) {
    if (pos >= d.size()) {
        return std::nullopt;
    }
    const uint64_t m = (1ULL << prefix) - 1;
    size_t p = pos;
    uint64_t v = d[p++] & m;
    if (v == m) {
        int n = 0;
        uint64_t scale = 1;
        while (true) {
            if (p >= d.size() || n == 5) {
                return std::nullopt;  // truncated, or more than five continuation octets
            }
            const uint8_t b = d[p++];
            v += (b & 127) * scale;
            scale *= 128;
            n++;
            if (v > 0xffffffffULL) {
                return std::nullopt;
            }
            if (!(b & 128)) {
                break;
            }
        }
    }
    pos = p;
    return v;
}

Bytes huff_encode(const std::string& s) {
    std::vector<bool> bits;
    for (unsigned char ch : s) {
        for (int i = RFC_HUFFMAN[ch].len - 1; i >= 0; i--) {
            bits.push_back((RFC_HUFFMAN[ch].code >> i) & 1);
        }
    }
    while (bits.size() % 8) {
        bits.push_back(true);
    }
    Bytes b(bits.size() / 8);
    for (size_t i = 0; i < bits.size(); i++) {
        if (bits[i]) {
            b[i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
        }
    }
    return b;
}

namespace {
// symbol lookup by (length, code)
int lookup(int len, uint32_t code) {
    static std::vector<std::vector<std::pair<uint32_t, int>>> by_len = [] {
        std::vector<std::vector<std::pair<uint32_t, int>>> v(31);
        for (int i = 0; i < 257; i++) {
            v[static_cast<size_t>(RFC_HUFFMAN[i].len)].emplace_back(RFC_HUFFMAN[i].code, i);
        }
        return v;
    }();
    for (auto& [c, s] : by_len[static_cast<size_t>(len)]) {
        if (c == code) {
            return s;
        }
    }
    return -1;
}
}  // namespace

std::optional<std::string> huff_decode(const uint8_t* d, size_t n) {
    std::string out;
    uint32_t code = 0;
    int len = 0;
    bool all_ones = true;
    for (size_t i = 0; i < n * 8; i++) {
        const bool bit = (d[i / 8] >> (7 - i % 8)) & 1;
        code = code << 1 | (bit ? 1 : 0);
        len++;
        all_ones &= bit;
        if (len >= 5) {
            const int s = lookup(len, code);
            if (s == 256) {
                return std::nullopt;  // EOS
            }
            if (s >= 0) {
                out += static_cast<char>(s);
                code = 0;
                len = 0;
                all_ones = true;
            }
        }
    }
    if (len > 7 || !all_ones) {
        return std::nullopt;
    }
    return out;
}

size_t Table::size() const {
    size_t n = 0;
    for (auto& f : e) {
        n += cost(f);
    }
    return n;
}
void Table::evict() {
    size_t n = size();
    while (n > max) {
        n -= cost(e.back());
        e.pop_back();
    }
}
void Table::insert(const Field& f) {
    if (cost(f) > max) {
        e.clear();
        return;
    }
    e.push_front(f);
    evict();
}
void Table::resize(size_t m) {
    max = m;
    evict();
}
std::optional<Field> Table::at(uint64_t index) const {
    if (index == 0) {
        return std::nullopt;
    }
    if (index <= 61) {
        return Field{RFC_STATIC[index - 1][0], RFC_STATIC[index - 1][1]};
    }
    if (index - 62 < e.size()) {
        return e[index - 62];
    }
    return std::nullopt;
}

std::optional<std::string> Decoder::string(const Bytes& d, size_t& pos, std::string& why) {
    if (pos >= d.size()) {
        why = "no string length";
        return std::nullopt;
    }
    const bool huff = d[pos] & 0x80;
    auto len = int_decode(d, pos, 7);
    if (!len) {
        why = "bad string length";
        return std::nullopt;
    }
    if (*len > d.size() - pos) {
        why = "string cut short";
        return std::nullopt;
    }
    std::string s;
    if (huff) {
        auto h = huff_decode(d.data() + pos, *len);
        if (!h) {
            why = "bad Huffman data";
            return std::nullopt;
        }
        s = *h;
    } else {
        s.assign(reinterpret_cast<const char*>(d.data()) + pos, *len);
    }
    pos += *len;
    if (s.size() > max_string) {
        why = "string too long";
        return std::nullopt;
    }
    return s;
}

Decoded Decoder::decode(const Bytes& d) {
    Decoded r;
    size_t pos = 0, list = 0;
    auto bad = [&](std::string w) {
        r.ok = false;
        r.why = std::move(w);
        return r;
    };
    while (pos < d.size()) {
        const uint8_t b = d[pos];
        if (b & 0x80) {
            auto i = int_decode(d, pos, 7);
            if (!i) {
                return bad("bad index integer");
            }
            auto f = table.at(*i);
            if (!f) {
                return bad("index out of range");
            }
            r.fields.push_back(*f);
            list += Table::cost(*f);
        } else if ((b & 0xe0) == 0x20) {
            auto n = int_decode(d, pos, 5);
            if (!n) {
                return bad("bad size update integer");
            }
            if (*n > max_table) {
                return bad("size update too large");
            }
            if (!r.fields.empty()) {
                r.size_update_late = true;
            }
            table.resize(*n);
        } else {
            const bool inc = b & 0x40;
            auto i = int_decode(d, pos, inc ? 6 : 4);
            if (!i) {
                return bad("bad name index integer");
            }
            Field f;
            if (*i == 0) {
                auto s = string(d, pos, r.why);
                if (!s) {
                    return bad("name: " + r.why);
                }
                f.first = *s;
            } else {
                auto nf = table.at(*i);
                if (!nf) {
                    return bad("name index out of range");
                }
                f.first = nf->first;
            }
            auto s = string(d, pos, r.why);
            if (!s) {
                return bad("value: " + r.why);
            }
            f.second = *s;
            if (inc) {
                table.insert(f);
            }
            r.fields.push_back(f);
            list += Table::cost(f);
        }
        if (list > max_list) {
            return bad("list too large");
        }
    }
    r.ok = true;
    return r;
}

void Encoder::put_string(pbt::Case& c, Bytes& out, const std::string& s) {
    const int extra = c.chance(1, 40) ? static_cast<int>(c.range(1, 2)) : 0;
    if (c.flip()) {
        Bytes h = huff_encode(s);
        Bytes l = h.size() >= 127 ? int_encode_long(h.size(), 7, 0x80, extra)
                                  : int_encode(h.size(), 7, 0x80);
        out.insert(out.end(), l.begin(), l.end());
        out.insert(out.end(), h.begin(), h.end());
        stats.huffman++;
    } else {
        Bytes l = s.size() >= 127 ? int_encode_long(s.size(), 7, 0, extra)
                                  : int_encode(s.size(), 7, 0);
        out.insert(out.end(), l.begin(), l.end());
        out.insert(out.end(), s.begin(), s.end());
    }
}

void Encoder::put_size_update(Bytes& out, size_t n) {
    Bytes b = int_encode(n, 5, 0x20);
    out.insert(out.end(), b.begin(), b.end());
    const size_t before = table.e.size();
    table.resize(n);
    stats.evictions += static_cast<int>(before - table.e.size());
    stats.size_updates++;
}

void Encoder::put_field(pbt::Case& c, Bytes& out, const Field& f) {
    std::vector<uint64_t> full, name;
    for (uint64_t i = 1; i <= 61 + table.e.size(); i++) {
        auto t = *table.at(i);
        if (t.first == f.first) {
            name.push_back(i);
            if (t.second == f.second) {
                full.push_back(i);
            }
        }
    }
    // 0: index if possible; 1: literal
    if (!full.empty() && !c.chance(1, 5)) {
        const uint64_t i = c.pick(full);
        Bytes b = int_encode(i, 7, 0x80);
        out.insert(out.end(), b.begin(), b.end());
        (i <= 61 ? stats.indexed_static : stats.indexed_dynamic)++;
        stats.long_index += i >= 127;
        return;
    }
    const size_t rep = c.weighted({5, 2, 2});
    const int prefix = rep == 0 ? 6 : 4;
    const uint8_t high = rep == 0 ? 0x40 : rep == 1 ? 0x00 : 0x10;
    uint64_t idx = 0;
    if (!name.empty() && !c.chance(1, 5)) {
        idx = c.pick(name);
        stats.dyn_name += idx > 61;
        stats.long_index += idx >= (rep == 0 ? 63 : 15);
    }
    Bytes b = int_encode(idx, prefix, high);
    out.insert(out.end(), b.begin(), b.end());
    if (idx == 0) {
        put_string(c, out, f.first);
    }
    put_string(c, out, f.second);
    if (rep == 0) {
        const size_t before = table.e.size();
        if (Table::cost(f) > table.max) {
            stats.oversize++;
        }
        table.insert(f);
        stats.evictions += static_cast<int>(before + 1 - table.e.size());
        stats.literal_inc++;
    } else {
        (rep == 1 ? stats.literal_no : stats.literal_never)++;
    }
}

Bytes Encoder::block(pbt::Case& c, const Fields& f) {
    Bytes out;
    for (auto& x : f) {
        put_field(c, out, x);
    }
    return out;
}

std::string token(pbt::Case& c, size_t max) {
    return c.str(c.len(max), "abcdefghijklmnopqrstuvwxyz0123456789-_./:; =,%\"QZ");
}

Field FieldGen::field(pbt::Case& c) {
    switch (c.weighted({3, 3, 2, 2, 1})) {
        case 0: {  // static table entry
            const size_t i = c.u(60);
            return {static_table()[i][0], static_table()[i][1]};
        }
        case 1:  // something used before
            if (!pool.empty()) {
                return pool[pool.size() - 1 - c.u(pool.size() - 1)];
            }
            [[fallthrough]];
        case 2: {  // static name, new value
            Field f{static_table()[c.u(60)][0], token(c, 40)};
            pool.push_back(f);
            return f;
        }
        case 3: {  // known name, new value
            Field f{pool.empty() ? "x-new" : pool[c.u(pool.size() - 1)].first, token(c, max_value)};
            pool.push_back(f);
            return f;
        }
        default: {
            Field f{binary && c.chance(1, 4) ? c.binstr(c.len(30)) : token(c, 30),
                    binary && c.chance(1, 3) ? c.binstr(c.len(max_value)) : token(c, max_value)};
            pool.push_back(f);
            return f;
        }
    }
}

Fields FieldGen::list(pbt::Case& c, size_t max) {
    Fields f;
    const size_t n = c.len(max);
    for (size_t i = 0; i < n; i++) {
        f.push_back(field(c));
    }
    return f;
}

std::string show(const Fields& f, size_t max) {
    std::string s = "[";
    for (size_t i = 0; i < f.size() && i < max; i++) {
        s += (i ? ", " : "") + pbt::quote(f[i].first, 40) + ": " + pbt::quote(f[i].second, 40);
    }
    if (f.size() > max) {
        s += std::format(", ... {} fields", f.size());
    }
    return s + "]";
}

// -------------------------------------------------------------------- libnghttp2
extern "C" {
struct ng_nv {
    uint8_t* name;
    uint8_t* value;
    size_t namelen, valuelen;
    uint8_t flags;
};
int nghttp2_hd_inflate_new(void**);
void nghttp2_hd_inflate_del(void*);
ssize_t nghttp2_hd_inflate_hd2(void*, ng_nv*, int*, const uint8_t*, size_t, int);
int nghttp2_hd_inflate_end_headers(void*);
int nghttp2_hd_inflate_change_table_size(void*, size_t);
int nghttp2_hd_deflate_new(void**, size_t);
void nghttp2_hd_deflate_del(void*);
int nghttp2_hd_deflate_change_table_size(void*, size_t);
ssize_t nghttp2_hd_deflate_hd(void*, uint8_t*, size_t, const ng_nv*, size_t);
size_t nghttp2_hd_deflate_bound(void*, const ng_nv*, size_t);
}

NgDeflater::NgDeflater(size_t m) {
    if (nghttp2_hd_deflate_new(&p_, m) != 0) {
        abort();
    }
}
NgDeflater::~NgDeflater() {
    nghttp2_hd_deflate_del(p_);
}
void NgDeflater::change_table_size(size_t n) {
    nghttp2_hd_deflate_change_table_size(p_, n);
}
Bytes NgDeflater::encode(const Fields& f, const std::vector<bool>& no_index) {
    std::vector<ng_nv> nv;
    for (size_t i = 0; i < f.size(); i++) {
        nv.push_back({reinterpret_cast<uint8_t*>(const_cast<char*>(f[i].first.data())),
                      reinterpret_cast<uint8_t*>(const_cast<char*>(f[i].second.data())),
                      f[i].first.size(), f[i].second.size(),
                      static_cast<uint8_t>(i < no_index.size() && no_index[i] ? 1 : 0)});
    }
    Bytes b(nghttp2_hd_deflate_bound(p_, nv.data(), nv.size()) + 64);
    const ssize_t n = nghttp2_hd_deflate_hd(p_, b.data(), b.size(), nv.data(), nv.size());
    if (n < 0) {
        abort();
    }
    b.resize(static_cast<size_t>(n));
    return b;
}

NgInflater::NgInflater() {
    if (nghttp2_hd_inflate_new(&p_) != 0) {
        abort();
    }
}
NgInflater::~NgInflater() {
    nghttp2_hd_inflate_del(p_);
}
bool NgInflater::set_table_size(size_t n) {
    return nghttp2_hd_inflate_change_table_size(p_, n) == 0;
}
std::optional<Fields> NgInflater::decode(const Bytes& d) {
    Fields out;
    const uint8_t* p = d.data();
    size_t left = d.size();
    uint8_t none = 0;
    if (!p) {
        p = &none;
    }
    while (true) {
        ng_nv nv{};
        int flags = 0;
        const ssize_t r = nghttp2_hd_inflate_hd2(p_, &nv, &flags, p, left, 1);
        if (r < 0) {
            return std::nullopt;
        }
        p += r;
        left -= static_cast<size_t>(r);
        if (flags & 2) {
            out.emplace_back(std::string(reinterpret_cast<char*>(nv.name), nv.namelen),
                             std::string(reinterpret_cast<char*>(nv.value), nv.valuelen));
        }
        if (flags & 1) {
            nghttp2_hd_inflate_end_headers(p_);
            return out;
        }
        if (!(flags & 2) && left == 0) {
            return std::nullopt;
        }
    }
}

}  // namespace ref
