// Driving ion::Http2Connection over a scripted transport, and judging what it writes.
#pragma once
#include <functional>
#include <memory>
#include <optional>

#include "h2.h"
#include "hpack_ref.h"
#include "http2_conn.h"
#include "ion_util.h"

namespace conn {
using pbt::Bytes;
using pbt::Case;
using Result = ion::Http2ProcessResult;
using TErr = ion::TransportError;

// ------------------------------------------------------------------ what the server wrote
struct Response {
    uint32_t stream = 0;
    ref::Fields fields;
    Bytes body;
    bool ended = false;
    size_t data_frames = 0, header_frames = 0;
};
struct Event {  // in the order the server sent them
    enum Kind { Settings, Ack, Answer, Goaway, Ping, WindowUpdate, Reset } kind;
    size_t index = 0;  // Answer: into responses
    uint32_t code = 0, stream = 0;
    Bytes data = {};  // Ping
};

class Output {
   public:
    explicit Output(bool strict_streams = true) : strict_(strict_streams) {}
    std::vector<Response> responses;
    std::vector<Event> events;
    std::string error;  // the first thing that is not well formed
    size_t frames = 0, table_resizes = 0;
    // header table sizes announced by each non-ACK SETTINGS frame of the client, applied when it is
    // acknowledged
    void announce(const std::vector<size_t>& sizes) {
        announced_.push_back(sizes);
    }
    void feed(std::span<const uint8_t> d) {
        buf_.insert(buf_.end(), d.begin(), d.end());
        while (error.empty() && buf_.size() - pos_ >= 9) {
            const uint8_t* p = buf_.data() + pos_;
            const size_t len = h2::get(p, 3);
            if (len > 16384) {
                error = std::format("frame of {} octets", len);
                return;
            }
            if (buf_.size() - pos_ < 9 + len) {
                break;
            }
            on_frame(p[3], p[4], h2::get(p + 5, 4), {p + 9, len});
            pos_ += 9 + len;
        }
    }
    size_t pending() const {
        return buf_.size() - pos_;
    }
    // everything sent so far is complete
    bool at_boundary() const {
        return pending() == 0 && !in_headers_ && (responses.empty() || responses.back().ended);
    }
    const Bytes& raw() const {
        return buf_;
    }
    size_t count(Event::Kind k) const {
        return static_cast<size_t>(
            std::count_if(events.begin(), events.end(), [&](auto& e) { return e.kind == k; }));
    }

   private:
    bool strict_;
    Bytes buf_;
    size_t pos_ = 0;
    bool in_headers_ = false;
    uint32_t cur_stream_ = 0;
    uint8_t cur_flags_ = 0;
    Bytes block_;
    ref::Decoder dec_{4096, 1 << 24, 4096};
    std::deque<std::vector<size_t>> announced_;
    std::optional<size_t> shrunk_;  // the smallest size announced since the last block, if below the table's
    size_t limit_ = 4096;

    void bad(std::string s) {
        if (error.empty()) {
            error = std::move(s);
        }
    }
    void end_block() {
        in_headers_ = false;
        auto d = dec_.decode(block_);
        if (!d.ok) {
            bad(std::format("header block {} is not decodable: {}", pbt::hex(block_, 200), d.why));
            return;
        }
        // between two blocks the smallest of the sizes announced must be taken up (RFC 7541, section 4.2)
        if (shrunk_) {
            if (block_.empty() || (block_[0] & 0xe0) != 0x20) {
                bad(std::format("header block {} does not take up the header table size {}", pbt::hex(block_, 40), *shrunk_));
            } else {
                size_t size = block_[0] & 0x1f;
                for (size_t i = 1, shift = 0; size >= 0x1f && i < block_.size() && shift < 32; i++, shift += 7) {
                    size += static_cast<size_t>(block_[i] & 0x7f) << shift;
                    if (!(block_[i] & 0x80)) {
                        break;
                    }
                }
                if (size > *shrunk_) {
                    bad(std::format("header block takes up the header table size {} before {}", size, *shrunk_));
                }
            }
            shrunk_.reset();
        }
        if (dec_.table.max > limit_) {
            bad(std::format("header table of {} in use, {} announced", dec_.table.max, limit_));
        }
        responses.back().fields = d.fields;
        if (cur_flags_ & h2::END_STREAM) {
            responses.back().ended = true;
        }
    }
    void on_frame(uint8_t type, uint8_t flags, uint32_t sid, std::span<const uint8_t> pl) {
        frames++;
        if (sid & 0x80000000u) {
            bad("reserved stream bit set");
        }
        if (frames == 1 && (type != h2::SETTINGS || (flags & h2::ACK))) {
            bad(std::format("the first frame is type {} flags {:#x}", type, flags));
        }
        if (in_headers_ && (type != h2::CONTINUATION || sid != cur_stream_)) {
            bad(std::format("frame type {} within a header block", type));
            return;
        }
        switch (type) {
            case h2::DATA: {
                if (flags & ~h2::END_STREAM) {
                    bad(std::format("DATA flags {:#x}", flags));
                }
                if (responses.empty() || responses.back().ended || responses.back().stream != sid) {
                    bad(std::format("DATA on stream {} which has no response under way", sid));
                    return;
                }
                auto& r = responses.back();
                r.body.insert(r.body.end(), pl.begin(), pl.end());
                r.data_frames++;
                r.ended = flags & h2::END_STREAM;
                break;
            }
            case h2::HEADERS: {
                if (flags & ~(h2::END_STREAM | h2::END_HEADERS)) {
                    bad(std::format("HEADERS flags {:#x}", flags));
                }
                if (strict_ && sid == 0) {
                    bad("HEADERS on stream 0");
                }
                if (!responses.empty() && !responses.back().ended) {
                    bad(std::format("response on stream {} before that on {} ended", sid,
                                    responses.back().stream));
                }
                events.push_back({.kind = Event::Answer, .index = responses.size(), .stream = sid});
                responses.push_back({.stream = sid, .header_frames = 1});
                in_headers_ = true;
                cur_stream_ = sid;
                cur_flags_ = flags;
                block_.assign(pl.begin(), pl.end());
                if (flags & h2::END_HEADERS) {
                    end_block();
                }
                break;
            }
            case h2::CONTINUATION: {
                if (!in_headers_) {
                    bad("CONTINUATION outside a header block");
                    return;
                }
                if (flags & ~h2::END_HEADERS) {
                    bad(std::format("CONTINUATION flags {:#x}", flags));
                }
                responses.back().header_frames++;
                block_.insert(block_.end(), pl.begin(), pl.end());
                if (flags & h2::END_HEADERS) {
                    end_block();
                }
                break;
            }
            case h2::SETTINGS: {
                if (sid != 0) {
                    bad("SETTINGS on a stream");
                }
                if (flags & h2::ACK) {
                    if (!pl.empty()) {
                        bad("SETTINGS ACK with a payload");
                    }
                    if (!announced_.empty()) {
                        for (size_t v : announced_.front()) {
                            limit_ = v;
                            dec_.max_table = v;
                            if (v < dec_.table.max) {
                                dec_.table.resize(v);
                                shrunk_ = v;
                                table_resizes++;
                            }
                        }
                        announced_.pop_front();
                    } else if (strict_) {
                        bad("SETTINGS ACK for nothing");
                    }
                    events.push_back({.kind = Event::Ack});
                } else {
                    if (pl.size() % 6) {
                        bad("SETTINGS size");
                    }
                    for (size_t i = 0; i + 6 <= pl.size(); i += 6) {
                        setting(h2::get(pl.data() + i, 2), h2::get(pl.data() + i + 2, 4));
                    }
                    events.push_back({.kind = Event::Settings});
                }
                break;
            }
            case h2::GOAWAY: {
                if (pl.size() < 8 || sid != 0) {
                    bad("malformed GOAWAY");
                    return;
                }
                events.push_back({.kind = Event::Goaway,
                                  .code = static_cast<uint32_t>(h2::get(pl.data() + 4, 4)),
                                  .stream = static_cast<uint32_t>(h2::get(pl.data(), 4))});
                break;
            }
            case h2::PING:
                if (pl.size() != 8 || sid != 0) {
                    bad("malformed PING");
                }
                if (flags != h2::ACK) {
                    bad(std::format("PING flags {:#x}", flags));
                }
                events.push_back({.kind = Event::Ping, .data = Bytes(pl.begin(), pl.end())});
                break;
            case h2::WINDOW_UPDATE:
                if (pl.size() != 4) {
                    bad("malformed WINDOW_UPDATE");
                }
                events.push_back({.kind = Event::WindowUpdate, .stream = sid});
                break;
            case h2::RST_STREAM:
                if (pl.size() != 4 || sid == 0) {
                    bad("malformed RST_STREAM");
                }
                events.push_back({.kind = Event::Reset, .stream = sid});
                break;
            default:
                bad(std::format("frame type {}", type));
        }
    }
    void setting(uint64_t id, uint64_t v) {
        if ((id == 2 && v > 1) || (id == 4 && v > 0x7fffffff) || (id == 5 && (v < 16384 || v > 16777215))) {
            bad(std::format("setting {} = {}", id, v));
        }
    }
};

// ------------------------------------------------------------------ the transport
struct Wire {
    Bytes in;             // what the client sends in all
    size_t in_pos = 0;    // read by the server so far
    size_t deliver = 0;   // readable up to here
    bool eof = false;     // the client closes once everything is delivered
    Bytes out;
    size_t accept = SIZE_MAX;      // octets that may still be written
    size_t write_cap = SIZE_MAX;   // at most this much per write
    size_t read_cap = SIZE_MAX;    // at most this much per read
    bool all_or_nothing = false;   // as OpenSSL: a blocked write must be retried with the same octets
    int handshake_waits = 0;
    std::optional<TErr> handshake_error, read_error, write_error;
    int write_errors_left = -1;    // -1: for ever
    int read_errors_left = -1;
    // book-keeping
    bool last_read_dry = false;    // the last read got nothing
    bool last_write_blocked = false;
    bool write_failed = false, read_failed = false, saw_eof = false, broken = false;
    int shutdowns = 0;
    bool handshaken = false;
    size_t reads = 0, writes = 0, blocked_writes = 0, partial_writes = 0;
    const uint8_t* pend_ptr = nullptr;
    size_t pend_len = 0;
    Bytes pend_copy;
    std::string misuse;
    size_t unread() const {
        return std::min(deliver, in.size()) - in_pos;
    }
};

class FakeTransport : public ion::Transport {
   public:
    explicit FakeTransport(std::shared_ptr<Wire> w) : w_(std::move(w)) {}
    std::expected<ssize_t, TErr> read(std::span<uint8_t> b) const override {
        auto& w = *w_;
        w.reads++;
        if (!w.handshaken && w.misuse.empty()) {
            w.misuse = "read before the handshake is complete";
        }
        if (w.broken) {
            w.last_read_dry = true;
            return std::unexpected(TErr::ProtocolError);
        }
        if (w.read_error && w.read_errors_left != 0) {
            w.read_errors_left -= w.read_errors_left > 0;
            w.last_read_dry = true;
            w.read_failed |= *w.read_error != TErr::WantReadOrWrite;
            w.broken |= *w.read_error == TErr::ProtocolError;  // as TLS: nothing works after this
            return std::unexpected(*w.read_error);
        }
        const size_t n = std::min({b.size(), w.unread(), w.read_cap});
        if (n == 0) {
            w.last_read_dry = true;
            if (w.eof && w.in_pos == w.in.size()) {
                w.saw_eof = true;
                return std::unexpected(TErr::ConnectionClosed);
            }
            return std::unexpected(TErr::WantReadOrWrite);
        }
        memcpy(b.data(), w.in.data() + w.in_pos, n);
        w.in_pos += n;
        w.last_read_dry = false;
        return static_cast<ssize_t>(n);
    }
    std::expected<ssize_t, TErr> write(std::span<const uint8_t> b) const override {
        auto& w = *w_;
        w.writes++;
        if (!w.handshaken && w.misuse.empty()) {
            w.misuse = "write before the handshake is complete";
        }
        if (w.broken) {
            w.write_failed = true;
            return std::unexpected(TErr::ProtocolError);
        }
        if (w.write_error && w.write_errors_left != 0) {
            w.write_errors_left -= w.write_errors_left > 0;
            w.write_failed = true;
            return std::unexpected(*w.write_error);
        }
        if (w.all_or_nothing) {
            if (w.pend_ptr) {
                if (w.pend_len > b.size() ||
                    !std::equal(w.pend_copy.begin(), w.pend_copy.end(), b.begin())) {
                    if (w.misuse.empty()) {
                        w.misuse = "a blocked write was not retried with the same octets";
                    }
                }
            }
            if (w.accept < b.size()) {
                w.pend_ptr = b.data();
                w.pend_len = b.size();
                w.pend_copy.assign(b.begin(), b.end());
                w.last_write_blocked = true;
                w.blocked_writes++;
                return std::unexpected(TErr::WantReadOrWrite);
            }
            w.pend_ptr = nullptr;
            w.pend_copy.clear();
            w.accept -= w.accept == SIZE_MAX ? 0 : b.size();
            w.out.insert(w.out.end(), b.begin(), b.end());
            w.last_write_blocked = false;
            return static_cast<ssize_t>(b.size());
        }
        const size_t n = std::min({b.size(), w.accept, w.write_cap});
        if (n == 0 && !b.empty()) {
            w.last_write_blocked = true;
            w.blocked_writes++;
            return std::unexpected(TErr::WantReadOrWrite);
        }
        w.accept -= w.accept == SIZE_MAX ? 0 : n;
        w.out.insert(w.out.end(), b.begin(), b.begin() + n);
        w.last_write_blocked = n < b.size();
        w.partial_writes += n < b.size();
        return static_cast<ssize_t>(n);
    }
    void graceful_shutdown() const override {
        w_->shutdowns++;
    }
    std::expected<void, TErr> handshake() const override {
        auto& w = *w_;
        if (w.handshake_waits > 0) {
            w.handshake_waits--;
            w.last_read_dry = true;
            return std::unexpected(TErr::WantReadOrWrite);
        }
        if (w.handshake_error) {
            return std::unexpected(*w.handshake_error);
        }
        w.handshaken = true;
        return {};
    }

   private:
    std::shared_ptr<Wire> w_;
};

// ------------------------------------------------------------------ requests and plans
struct NotStd {
    int x = 0;
};
enum class Throw { None, Runtime, Exception, Int, CString, Struct, String };
struct Plan {
    ion::HttpResponse resp{200};
    Throw throws = Throw::None;
};
[[noreturn]] inline void do_throw(Throw t) {
    switch (t) {
        case Throw::Runtime:
            throw std::runtime_error("planned");
        case Throw::Exception:
            throw std::exception();
        case Throw::Int:
            throw 42;
        case Throw::CString:
            throw "planned";
        case Throw::String:
            throw std::string("planned");
        default:
            throw NotStd{};
    }
}
struct Call {
    std::string method, path;
    ref::Fields headers;
    bool operator==(const Call&) const = default;
};
inline std::string show(const Call& c) {
    return std::format("{} {} {}", pbt::quote(c.method), pbt::quote(c.path), ref::show(c.headers));
}

// a router whose single middleware sees every request and answers by plan, in call order
struct Stage {
    ion::Router router;
    std::vector<Call> calls;
    std::vector<Plan> plans;
    std::function<void(size_t)> during;  // runs inside the handler
    Stage() {
        router.add_middleware([this](ion::RouteHandler) -> ion::RouteHandler {
            return [this](const ion::HttpRequest& r) -> ion::HttpResponse { return answer(r); };
        });
    }
    ion::HttpResponse answer(const ion::HttpRequest& r) {
        const size_t k = calls.size();
        calls.push_back({r.method, r.path, to_fields(r.headers)});
        if (during) {
            during(k);
        }
        if (k >= plans.size()) {
            return ion::HttpResponse{299};
        }
        if (plans[k].throws != Throw::None) {
            do_throw(plans[k].throws);
        }
        return plans[k].resp;
    }
    Stage(const Stage&) = delete;
};

struct Item {
    enum Kind {
        Request,
        Incomplete,  // a HEADERS frame without :method or :path
        Settings,
        SettingsAck,
        WindowUpdate,
        Ping,
        Other,
        Goaway,
        Violation
    } kind;
    Bytes wire;
    Call call;           // Request
    uint32_t stream = 0;
    std::vector<size_t> table_sizes;  // Settings
    std::string what;
    Bytes ping = {};          // Ping: to be sent back
    size_t continuations = 0, block_size = 0;  // Request, Incomplete
};

struct Gen {
    Case& c;
    ref::Encoder enc{4096, 4096};
    ref::FieldGen fields, resp_fields;
    uint32_t next_stream = 1;
    std::vector<uint32_t> used;
    bool pads = true, prios = true, odd_streams_only = true;
    bool conts = true;         // some header blocks come in several frames
    size_t max_block = 16384;  // octets of a header block
    bool bulk = false;         // some requests have fields of kilobytes
    size_t continuations = 0;  // CONTINUATION frames in the last header block
    std::string tag;  // sent with every request, if any
    explicit Gen(Case& cc) : c(cc) {
        fields.max_value = c.chance(1, 6) ? 600 : 60;
    }
    uint32_t new_stream() {
        const uint32_t s = next_stream;
        next_stream += 2 * static_cast<uint32_t>(c.chance(1, 8) ? 1 + c.skewed(100000) : 1);
        used.push_back(s);
        return s;
    }
    std::string a_method() {
        return c.chance(1, 4) ? ref::token(c, 12) : c.pick<std::string>({"GET", "HEAD", "POST", "PUT", "OPTIONS"});
    }
    std::string a_path() {
        switch (c.u(4)) {
            case 0:
                return "/";
            case 1:
                return "/index.html";
            case 2:
                return "/" + c.str(c.len(30), "abc/.%?=&-");
            case 3:
                return "/" + c.binstr(c.len(20));
            default:
                return c.str(c.len(10), "*/ab:");
        }
    }
    // HEADERS with any legal frame layout around `block`, with CONTINUATION frames if it is split
    Bytes headers_frame(uint32_t stream, const Bytes& block, bool end_stream, std::string* layout = nullptr) {
        const bool split = block.size() > 16384 || (conts && c.chance(1, 6));
        size_t head = block.size();  // octets of it in the HEADERS frame
        if (split) {
            head = std::min<size_t>(16384, c.chance(1, 4) ? block.size() : c.u(block.size()));
        }
        uint8_t flags = (split ? 0 : h2::END_HEADERS) | (end_stream ? h2::END_STREAM : 0);
        Bytes p;
        size_t room = 16384 - head;
        size_t pad = 0;
        const bool prio = prios && room >= 5 && c.chance(1, 4);
        room -= prio ? 5 : 0;
        const bool padded = pads && room >= 1 && c.chance(1, 4);
        if (padded) {
            room--;
            pad = std::min<size_t>(room, c.chance(1, 4) ? 255 : c.u(20));
            flags |= h2::PADDED;
            p.push_back(static_cast<uint8_t>(pad));
        }
        if (prio) {
            flags |= h2::PRIO;
            h2::append(p, c.bytes(5));
        }
        p.insert(p.end(), block.begin(), block.begin() + static_cast<long>(head));
        p.insert(p.end(), pad, 0);
        if (c.chance(1, 10)) {
            flags |= c.pick<uint8_t>({0x02, 0x10, 0x40, 0x80, 0xd2});  // undefined flags are ignored
        }
        Bytes out = h2::frame(h2::HEADERS, flags, stream, p, c.chance(1, 12));
        continuations = 0;
        for (bool more = split; more;) {
            size_t n = block.size() - head;
            if (c.chance(3, 4)) {
                n = c.chance(1, 4) ? 0 : c.skewed(n);
            }
            if (continuations > 50) {
                n = block.size() - head;
            }
            n = std::min<size_t>(n, 16384);
            more = head + n < block.size() || (continuations < 50 && c.chance(1, 8));
            const uint8_t undefined = c.chance(1, 10) ? c.byte() & ~h2::END_HEADERS : 0;
            h2::append(out, h2::frame(h2::CONTINUATION, (more ? 0 : h2::END_HEADERS) | undefined, stream,
                                      Bytes(block.begin() + static_cast<long>(head),
                                            block.begin() + static_cast<long>(head + n)),
                                      c.chance(1, 12)));
            head += n;
            continuations++;
        }
        if (layout) {
            *layout = std::format("flags {:#x}, padding {}, {} CONTINUATION frames", flags, pad, continuations);
        }
        return out;
    }
    // a block for `f`, or nothing if it would not fit a frame (the encoder is then unchanged)
    std::optional<Bytes> block(const ref::Fields& f) {
        ref::Encoder copy = enc;
        Bytes b = copy.block(c, f);
        if (b.size() > max_block) {
            return std::nullopt;
        }
        enc = std::move(copy);
        return b;
    }
    Item request(size_t max_fields = 12) {
        Item it{.kind = Item::Request};
        it.call.method = a_method();
        it.call.path = a_path();
        it.stream = new_stream();
        for (int attempt = 0;; attempt++) {
            ref::Fields f{{":method", it.call.method}, {":path", it.call.path}};
            if (c.chance(3, 4)) {
                f.push_back({":scheme", c.flip() ? "https" : "http"});
            }
            if (c.chance(3, 4)) {
                f.push_back({":authority", c.str(c.len(20), "abc.:0")});
            }
            for (size_t i = f.size() - 1; i > 0; i--) {
                std::swap(f[i], f[c.u(i)]);
            }
            if (!tag.empty()) {
                f.push_back({"x-id", tag});
            }
            if (bulk && attempt < 2 && c.chance(1, 2)) {
                for (size_t i = 0, n = 1 + c.u(attempt ? 4 : 15); i < n; i++) {
                    std::string v(c.chance(1, 4) ? 3900 : c.u(3900), 0);
                    uint32_t x = static_cast<uint32_t>(c.u(0xffffffff)) | 1;
                    for (auto& ch : v) {
                        x ^= x << 13;
                        x ^= x >> 17;
                        x ^= x << 5;
                        ch = "abcdefghijklmnopqrstuvwxyz0123456789-/"[(x >> 8) % 38];
                    }
                    f.push_back({c.pick<std::string>({"x-bulk", "cookie", "y"}), v});
                }
                if (c.chance(1, 40)) {  // and up to as many again as a header list may hold
                    const auto again = f.back();
                    for (size_t n = ref::list_cost(f) + (64 << 10); n + ref::Table::cost(again) <= (256 << 10);) {
                        f.push_back(again);
                        n += ref::Table::cost(again);
                    }
                }
            }
            if (attempt < 3) {
                for (auto& x : fields.list(c, max_fields)) {
                    if (!x.first.empty() && x.first[0] != ':') {
                        f.push_back(x);
                    }
                }
            }
            if (auto b = block(f)) {
                it.call.headers = f;
                std::string lay;
                it.wire = headers_frame(it.stream, *b, c.chance(7, 8), &lay);
                it.continuations = continuations;
                it.block_size = b->size();
                it.what = std::format("request {} on stream {} ({})", conn::show(it.call), it.stream, lay);
                return it;
            }
        }
    }
    Item incomplete() {
        Item it{.kind = Item::Incomplete};
        it.stream = new_stream();
        ref::Fields f;
        const auto which = c.u(2);
        if (which == 0) {
            f.push_back({":method", a_method()});
        } else if (which == 1) {
            f.push_back({":path", a_path()});
        }
        if (c.flip()) {
            f.push_back({":scheme", "http"});
        }
        for (auto& x : fields.list(c, 4)) {
            if (!x.first.empty() && x.first[0] != ':') {
                f.push_back(x);
            }
        }
        auto b = block(f);
        if (!b) {
            f.resize(std::min<size_t>(f.size(), 1));
            b = block(f);
        }
        it.wire = headers_frame(it.stream, b.value_or(Bytes{}), true);
        it.continuations = continuations;
        it.call.headers = f;
        it.what = std::format("incomplete request {} on stream {}", ref::show(f), it.stream);
        return it;
    }
    Item settings() {
        Item it{.kind = Item::Settings};
        std::vector<h2::Setting> s;
        for (size_t i = 0, n = c.len(8); i < n; i++) {
            switch (c.u(5)) {
                case 0: {
                    const uint32_t v = c.chance(1, 3)   ? static_cast<uint32_t>(c.u(200))
                                       : c.chance(1, 3) ? 4096
                                                        : static_cast<uint32_t>(c.skewed(0xffffffff));
                    s.push_back({1, v});
                    it.table_sizes.push_back(v);
                    break;
                }
                case 1:
                    s.push_back({2, static_cast<uint32_t>(c.u(1))});
                    break;
                case 2:
                    s.push_back({3, static_cast<uint32_t>(c.skewed(0xffffffff))});
                    break;
                case 3:
                    // flow control is not implemented: a small window would forbid the server to send
                    s.push_back({4, static_cast<uint32_t>(0x7fffffff)});
                    break;
                case 4:
                    s.push_back({5, static_cast<uint32_t>(16384 + c.skewed(16777215 - 16384))});
                    break;
                default:
                    s.push_back({static_cast<uint16_t>(c.flip() ? 6 : 7 + c.skewed(0xfff8)),
                                 static_cast<uint32_t>(c.skewed(0xffffffff))});
            }
        }
        it.wire = h2::frame(h2::SETTINGS, c.chance(1, 8) ? c.byte() & ~h2::ACK : 0, 0,
                            h2::settings_payload(s), c.chance(1, 20));
        it.what = std::format("SETTINGS with {} settings", s.size());
        for (auto v : it.table_sizes) {
            it.what += std::format(" table={}", v);
        }
        return it;
    }
    Item settings_ack() {
        return {.kind = Item::SettingsAck,
                .wire = h2::frame(h2::SETTINGS, h2::ACK | (c.chance(1, 8) ? c.byte() : 0), 0, {}),
                .what = "SETTINGS ACK"};
    }
    Item window_update() {
        Bytes p;
        h2::put(p, 1 + c.skewed(0x7ffffffe), 4);
        if (c.chance(1, 8)) {
            p[0] |= 0x80;
        }
        const uint32_t s = used.empty() || c.flip() ? 0 : c.pick(used);
        return {.kind = Item::WindowUpdate,
                .wire = h2::frame(h2::WINDOW_UPDATE, c.chance(1, 4) ? c.byte() : 0, s, p),
                .what = std::format("WINDOW_UPDATE on stream {}", s)};
    }
    Item ping() {
        Item it{.kind = Item::Ping};
        const Bytes p = c.bytes(8);
        const bool ack = c.chance(1, 6);
        it.wire = h2::frame(h2::PING, (ack ? h2::ACK : 0) | (c.chance(1, 8) ? c.byte() & ~h2::ACK : 0), 0, p,
                            c.chance(1, 12));
        it.what = std::format("PING{} {}", ack ? " ACK" : "", pbt::hex(p));
        if (ack) {
            it.kind = Item::Other;
        } else {
            it.ping = p;
        }
        return it;
    }
    Item unknown() {
        const auto type = static_cast<uint8_t>(0x0a + c.u(0xf5));
        const Bytes p = c.bytes(c.chance(1, 20) ? 16384 - c.u(2) : c.len(60));
        const auto s = static_cast<uint32_t>(c.flip() ? 0 : c.skewed(0x7fffffff));
        return {.kind = Item::Other, .wire = h2::frame(type, c.byte(), s, p, c.chance(1, 10)),
                .what = std::format("unknown frame type {} of {} octets on stream {}", type, p.size(), s)};
    }
    Item priority() {
        const uint32_t s = used.empty() || c.flip() ? next_stream : c.pick(used);
        return {.kind = Item::Other, .wire = h2::frame(h2::PRIORITY, c.chance(1, 8) ? c.byte() : 0, s, c.bytes(5)),
                .what = "PRIORITY"};
    }
    // DATA or RST_STREAM for a stream already used
    Item on_stream() {
        const uint32_t s = c.pick(used);
        if (c.flip()) {
            return {.kind = Item::Other, .wire = h2::frame(h2::RST_STREAM, 0, s, c.bytes(4)), .what = "RST_STREAM"};
        }
        Bytes p;
        const bool padded = c.chance(1, 4);
        const size_t pad = padded ? c.u(30) : 0;
        if (padded) {
            p.push_back(static_cast<uint8_t>(pad));
        }
        // octets that would be frames of their own if the length were not honoured
        const Bytes body = c.chance(1, 3) ? h2::frame(h2::SETTINGS, 0, 0, {}) : c.bytes(c.len(300));
        h2::append(p, body);
        p.insert(p.end(), pad, 0);
        return {.kind = Item::Other,
                .wire = h2::frame(h2::DATA, (padded ? h2::PADDED : 0) | (c.flip() ? h2::END_STREAM : 0), s, p),
                .what = std::format("DATA of {} octets on stream {}", p.size(), s)};
    }
    Item goaway() {
        Bytes p;
        h2::put(p, c.u(100), 4);
        h2::put(p, c.u(13), 4);
        h2::append(p, c.bytes(c.len(20)));
        return {.kind = Item::Goaway, .wire = h2::frame(h2::GOAWAY, 0, 0, p), .what = "GOAWAY"};
    }
    // any control frame that needs no answer but for SETTINGS and PING
    Item control() {
        switch (c.weighted({3, 1, 3, 3, 1, 2, 2})) {
            case 0:
                return settings();
            case 1:
                return settings_ack();
            case 2:
                return window_update();
            case 3:
                return unknown();
            case 4:
                return priority();
            case 6:
                return ping();
            default:
                return used.empty() ? window_update() : on_stream();
        }
    }
};

// ------------------------------------------------------------------ responses handlers return
inline ion::HttpResponse make_response(Case& c, ref::FieldGen& fg, bool big = true) {
    ion::HttpResponse r{};
    r.status_code = c.chance(1, 2) ? c.pick<uint16_t>({200, 204, 304, 404, 500, 206, 400})
                                   : static_cast<uint16_t>(200 + c.u(399));
    size_t n = 0;
    switch (c.weighted({4, 4, big ? 3u : 0u, big ? 1u : 0u})) {
        case 0:
            break;
        case 1:
            n = c.len(400);
            break;
        case 2: {  // around the frame sizes
            const size_t around[] = {16256, 16384, 2 * 16256, 2 * 16384, 32768, 65535};
            n = around[c.u(5)] + c.u(4) - 2;
            break;
        }
        default:
            n = c.u(300000);
    }
    if (r.status_code == 204 || r.status_code == 304) {
        n = 0;
    }
    r.body.resize(n);
    uint32_t x = static_cast<uint32_t>(c.u(0xffffffff)) | 1;
    for (auto& b : r.body) {  // aperiodic, so that repeated or swapped pieces show
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        b = static_cast<uint8_t>(x >> 8);
    }
    const size_t max_value = fg.max_value;
    if (big && c.chance(1, 12)) {
        fg.max_value = c.flip() ? 20000 : 40000;
    }
    for (auto& f : fg.list(c, c.chance(1, 8) ? 60 : 6)) {
        const bool reserved = f.first.empty() || f.first[0] == ':' || f.first == "content-length" ||
                              f.first == "server" || f.first == "x-powered-by";
        if (!reserved) {
            r.headers.push_back({f.first, f.second});
        }
    }
    fg.max_value = max_value;
    return r;
}

// what a complete response must look like; "" if it does
inline std::string judge_response(const Response& got, uint32_t stream, uint16_t status,
                                  const std::vector<ion::HttpHeader>& headers, const Bytes& body) {
    if (got.stream != stream) {
        return std::format("answer on stream {} instead of {}", got.stream, stream);
    }
    if (!got.ended) {
        return std::format("answer on stream {} not ended", stream);
    }
    const std::string want_status = std::to_string(status);
    if (got.fields.empty() || got.fields[0] != ref::Field{":status", want_status}) {
        return std::format("stream {}: {} instead of a leading :status {}", stream, ref::show(got.fields), want_status);
    }
    size_t statuses = 0, lengths = 0, servers = 0;
    const bool own_length = std::any_of(headers.begin(), headers.end(), [](auto& h) { return h.name == "content-length"; });
    size_t k = 0;  // the handler's fields in order
    for (size_t i = 0; i < got.fields.size(); i++) {
        auto& [n, v] = got.fields[i];
        statuses += n == ":status";
        if (i == 0) {
            continue;
        }
        if (k < headers.size() && headers[k].name == n && headers[k].value == v) {
            k++;
            continue;
        }
        if (n == "content-length" && !body.empty() && v == std::to_string(body.size())) {
            lengths++;
        } else if (n == "server") {
            if (v.empty()) {
                return "empty server field";
            }
            servers++;
        } else if (n == "x-powered-by") {
            // identification as well
        } else {
            return std::format("stream {}: unexpected or altered field {} in {}", stream,
                               ref::show({got.fields[i]}), ref::show(got.fields, 80));
        }
    }
    if (k != headers.size()) {
        return std::format("stream {}: field {} of the handler missing from {}", stream,
                           ref::show({{headers[k].name, headers[k].value}}), ref::show(got.fields, 80));
    }
    if (statuses != 1) {
        return std::format("stream {}: {} :status fields", stream, statuses);
    }
    if (!own_length && lengths != (body.empty() ? 0 : 1)) {
        return std::format("stream {}: {} content-length fields for a body of {}", stream, lengths, body.size());
    }
    if (servers != 1) {
        return std::format("stream {}: {} server fields", stream, servers);
    }
    if (got.body != body) {
        size_t at = 0;
        while (at < got.body.size() && at < body.size() && got.body[at] == body[at]) {
            at++;
        }
        return std::format("stream {}: body of {} octets instead of {}, differs at {}", stream,
                           got.body.size(), body.size(), at);
    }
    if (body.empty() && got.data_frames != 0) {
        return std::format("stream {}: {} DATA frames for no body", stream, got.data_frames);
    }
    return "";
}

// ------------------------------------------------------------------ driving
inline bool more_to_do(Result r) {
    return r != Result::WantRead && r != Result::WantWrite && r != Result::DiscardConnection;
}
struct Rig {
    std::shared_ptr<Wire> wire = std::make_shared<Wire>();
    Stage stage;
    std::unique_ptr<ion::Http2Connection> conn;
    std::string ip;
    bool discarded = false;
    size_t steps = 0;
    explicit Rig(std::string client_ip = "192.0.2.1") : ip(std::move(client_ip)) {}
    void open() {
        conn = std::make_unique<ion::Http2Connection>(std::make_unique<FakeTransport>(wire), ip, stage.router);
    }
    // a turn, or more if the connection has more to do
    Result step() {
        steps++;
        auto r = conn->process();
        for (size_t i = 0; i < 100000 && more_to_do(r); i++) {
            r = conn->process();
        }
        if (r == Result::DiscardConnection) {
            discarded = true;
            conn.reset();  // what the server does: nothing may be written any more
        }
        return r;
    }
    // everything available is processed and nothing is blocked, or the connection was discarded
    // (returns false if that does not happen within a generous number of steps)
    bool settle(size_t max_steps = 100000) {
        for (size_t i = 0; i < max_steps && !discarded; i++) {
            const size_t before_in = wire->in_pos, before_out = wire->out.size();
            const int waits = wire->handshake_waits;
            const auto r = step();
            if (r == Result::WantRead && wire->in_pos == before_in && wire->out.size() == before_out &&
                wire->handshake_waits == waits) {
                return true;
            }
        }
        return discarded;
    }
};

// delivers everything in pieces drawn from the case, without write trouble
inline bool deliver_all(Case& c, Rig& rig, int style) {
    auto& w = *rig.wire;
    if (style == 0) {
        w.deliver = w.in.size();
        return rig.settle();
    }
    if (style == 2) {
        w.read_cap = 1 + c.u(40);
    }
    while (!rig.discarded && w.deliver < w.in.size()) {
        const size_t left = w.in.size() - w.deliver;
        w.deliver += style == 3 ? 1 : std::min(left, 1 + c.skewed(c.flip() ? 40 : 30000));
        if (!rig.settle()) {
            return false;
        }
    }
    return rig.settle();
}
inline int delivery_style(Case& c, size_t total) {
    const int s = static_cast<int>(c.weighted({4, 3, 1, total < 600 ? 1u : 0u}));
    return s;
}

// ------------------------------------------------------------------ a whole session
// an answer the server makes up itself (400, 500): complete, of that status, any consistent body
inline std::string judge_own(const Response& got, uint32_t stream, const std::string& status) {
    if (got.stream != stream || !got.ended) {
        return std::format("answer on stream {} (ended: {}) instead of stream {}", got.stream, got.ended, stream);
    }
    if (got.fields.empty() || got.fields[0] != ref::Field{":status", status}) {
        return std::format("stream {}: {} instead of a leading :status {}", stream, ref::show(got.fields), status);
    }
    for (auto& [n, v] : got.fields) {
        if (n == "content-length" && v != std::to_string(got.body.size())) {
            return std::format("stream {}: content-length {} with a body of {}", stream, v, got.body.size());
        }
        if (n[0] == ':' && n != ":status") {
            return std::format("stream {}: field {}", stream, n);
        }
    }
    return "";
}

struct Session {
    std::vector<Item> items;
    Bytes bytes() const {
        Bytes b;
        h2::append(b, h2::PREFACE);
        for (auto& i : items) {
            h2::append(b, i.wire);
        }
        return b;
    }
    void note(Case& c) const {
        if (c.verbose) {
            for (auto& i : items) {
                c.note("client: " + i.what);
            }
        }
    }
    void announce(Output& o) const {
        for (auto& i : items) {
            if (i.kind == Item::Settings) {
                o.announce(i.table_sizes);
            }
        }
    }
    // requests the handlers must have seen, in order
    std::vector<Call> calls(size_t upto = SIZE_MAX) const {
        std::vector<Call> v;
        for (size_t i = 0; i < std::min(upto, items.size()); i++) {
            if (items[i].kind == Item::Request) {
                v.push_back(items[i].call);
            }
        }
        return v;
    }
    // what was sent answers exactly items [0, upto); goaway: whether a GOAWAY may end it
    std::string judge(const Output& o, const Stage& st, size_t upto = SIZE_MAX, bool goaway = false) const {
        if (!o.error.empty()) {
            return o.error;
        }
        if (!o.at_boundary()) {
            return std::format("the output ends within a frame or response ({} octets)", o.pending());
        }
        if (o.events.empty() || o.events[0].kind != Event::Settings) {
            return "no SETTINGS sent first";
        }
        size_t e = 1, plan = 0;
        for (size_t i = 0; i < std::min(upto, items.size()); i++) {
            auto& it = items[i];
            if (it.kind == Item::Goaway || it.kind == Item::Violation) {
                break;
            }
            if (it.kind != Item::Settings && it.kind != Item::Request && it.kind != Item::Incomplete &&
                it.kind != Item::Ping) {
                continue;
            }
            if (e >= o.events.size()) {
                return "no answer to " + it.what;
            }
            auto& ev = o.events[e++];
            if (it.kind == Item::Settings) {
                if (ev.kind != Event::Ack) {
                    return std::format("event {} (kind {}) instead of the acknowledgement of {}", e - 1,
                                       static_cast<int>(ev.kind), it.what);
                }
                continue;
            }
            if (it.kind == Item::Ping) {
                if (ev.kind != Event::Ping || ev.data != it.ping) {
                    return std::format("event {} (kind {}, {}) instead of the acknowledgement of {}", e - 1,
                                       static_cast<int>(ev.kind), pbt::hex(ev.data), it.what);
                }
                continue;
            }
            if (ev.kind != Event::Answer) {
                return std::format("event {} (kind {}) instead of the answer to {}", e - 1,
                                   static_cast<int>(ev.kind), it.what);
            }
            auto& r = o.responses[ev.index];
            std::string bad;
            if (it.kind == Item::Incomplete) {
                bad = judge_own(r, it.stream, "400");
            } else {
                auto& p = st.plans[plan++];
                bad = p.throws != Throw::None
                          ? judge_own(r, it.stream, "500")
                          : judge_response(r, it.stream, p.resp.status_code, p.resp.headers, p.resp.body);
            }
            if (!bad.empty()) {
                return bad + " in answer to " + it.what;
            }
        }
        if (goaway && e < o.events.size() && o.events[e].kind == Event::Goaway) {
            e++;
        }
        if (e != o.events.size()) {
            return std::format("unprompted: event {} of kind {} (stream {})", e,
                               static_cast<int>(o.events[e].kind), o.events[e].stream);
        }
        return "";
    }
};
inline std::string diff_calls(const std::vector<Call>& want, const std::vector<Call>& got) {
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
        if (i >= got.size()) {
            return std::format("handler call {} missing: {}", i, show(want[i]));
        }
        if (i >= want.size()) {
            return std::format("handler call {} too many: {}", i, show(got[i]));
        }
        if (!(want[i] == got[i])) {
            return std::format("handler call {} is {} instead of {}", i, show(got[i]), show(want[i]));
        }
    }
    return "";
}

}  // namespace conn
