// An independent HPACK implementation (RFC 7541) used as oracle: deliberately naive, shares nothing
// with /repo. The tables in rfc_tables.inc were checked symbol by symbol against libnghttp2.
#pragma once
#include <cstdint>
#include <deque>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

namespace ref {

using pbt::Bytes;
using Field = std::pair<std::string, std::string>;
using Fields = std::vector<Field>;

struct HuffCode {
    uint32_t code;
    int len;
};
extern const HuffCode (&huffman())[257];
extern const char* const (&static_table())[61][2];

// ---- integers
Bytes int_encode(uint64_t value, int prefix, uint8_t high_bits);
// pads the continuation with `extra` redundant octets (still a legal encoding)
Bytes int_encode_long(uint64_t value, int prefix, uint8_t high_bits, int extra);
// nullopt: error. pos is advanced past the integer on success.
std::optional<uint64_t> int_decode(const Bytes& d, size_t& pos, int prefix);

// ---- Huffman
Bytes huff_encode(const std::string& s);
// strict RFC 7541 5.2 decoding
std::optional<std::string> huff_decode(const uint8_t* d, size_t n);

// ---- dynamic table
struct Table {
    std::deque<Field> e;
    size_t max;
    explicit Table(size_t m) : max(m) {}
    size_t size() const;
    static size_t cost(const Field& f) {
        return f.first.size() + f.second.size() + 32;
    }
    void evict();
    void insert(const Field& f);
    void resize(size_t m);
    std::optional<Field> at(uint64_t index) const;  // 1-based over static + dynamic
};

inline size_t list_cost(const Fields& f) {
    size_t n = 0;
    for (auto& x : f) {
        n += Table::cost(x);
    }
    return n;
}

// ---- decoder
struct Decoded {
    bool ok = false;
    bool size_update_late = false;  // a size update after a field: RFC leaves rejecting it open
    std::string why;
    Fields fields;
};
struct Decoder {
    Table table;
    size_t max_string;
    size_t max_table;
    size_t max_list;  // octets of all fields of a block, each counted like a table entry
    Decoder(size_t initial, size_t max_str, size_t max_tab, size_t max_lst = SIZE_MAX)
        : table(initial), max_string(max_str), max_table(max_tab), max_list(max_lst) {}
    Decoded decode(const Bytes& d);

   private:
    std::optional<std::string> string(const Bytes& d, size_t& pos, std::string& why);
};

// ---- encoder: every legal choice is drawn from the case
struct EncodeStats {
    int indexed_static = 0, indexed_dynamic = 0, literal_inc = 0, literal_no = 0, literal_never = 0;
    int dyn_name = 0, huffman = 0, size_updates = 0, evictions = 0, oversize = 0, long_index = 0;
};
struct Encoder {
    Table table;
    size_t limit;  // the largest size the decoder allows
    Encoder(size_t initial, size_t lim) : table(initial), limit(lim) {}
    EncodeStats stats;
    // p_*: weights the caller may bias
    void put_string(pbt::Case& c, Bytes& out, const std::string& s);
    void put_field(pbt::Case& c, Bytes& out, const Field& f);
    void put_size_update(Bytes& out, size_t n);
    Bytes block(pbt::Case& c, const Fields& f);
};

// ---- generators
std::string token(pbt::Case& c, size_t max);
// a field list with plenty of repetition (so that indexing matters)
struct FieldGen {
    std::vector<Field> pool;
    size_t max_value = 200;
    bool binary = true;
    Field field(pbt::Case& c);
    Fields list(pbt::Case& c, size_t max);
};

std::string show(const Fields& f, size_t max = 12);

// ---- libnghttp2's HPACK as a second, widely deployed peer
class NgDeflater {
   public:
    explicit NgDeflater(size_t max_table);
    ~NgDeflater();
    NgDeflater(const NgDeflater&) = delete;
    Bytes encode(const Fields& f, const std::vector<bool>& no_index);
    void change_table_size(size_t n);

   private:
    void* p_ = nullptr;
};
class NgInflater {
   public:
    NgInflater();
    ~NgInflater();
    NgInflater(const NgInflater&) = delete;
    bool set_table_size(size_t n);
    std::optional<Fields> decode(const Bytes& d);

   private:
    void* p_ = nullptr;
};

}  // namespace ref
