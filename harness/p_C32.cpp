// C32: a client cannot make its connection hold more than a bounded amount of memory.
#include <sanitizer/allocator_interface.h>

#include "conn.h"

using namespace pbt;
using namespace conn;

namespace {
long live_bytes = 0, peak_bytes = 0;
void install() {
    static const bool once = [] {
        __sanitizer_install_malloc_and_free_hooks(
            [](const volatile void*, size_t n) { peak_bytes = std::max(peak_bytes, live_bytes += static_cast<long>(n)); },
            [](const volatile void* p) {
                if (p) {
                    live_bytes -= static_cast<long>(__sanitizer_get_allocated_size(p));
                }
            });
        return true;
    }();
    (void)once;
}

// One kind of frame the client sends over and over, made anew each time into a buffer of fixed size:
// the harness itself must not hold more memory as the case goes on.
struct Kind {
    std::string what;
    uint8_t type = 0, flags = 0;
    Bytes payload;
    bool new_stream = false;    // the next odd stream number each time
    size_t counter_at = SIZE_MAX;  // six letters that differ each time
    size_t answered = 0;        // octets of the answer, roughly
};

struct Flood {
    std::vector<Kind> kinds;  // sent in turn
    size_t left = 0;          // octets still to be sent
    size_t sent_frames = 0;
    Bytes cur;
    size_t cur_pos = 0;
    uint32_t stream = 1;
    bool next() {
        if (left == 0) {
            return false;
        }
        const Kind& k = kinds[sent_frames % kinds.size()];
        cur.clear();
        const size_t n = k.payload.size();
        const uint8_t head[9] = {uint8_t(n >> 16), uint8_t(n >> 8), uint8_t(n), k.type, k.flags};
        cur.insert(cur.end(), head, head + 9);
        const uint32_t s = k.new_stream ? stream : k.type == h2::DATA || k.type == h2::CONTINUATION ? 1 : 0;
        if (k.new_stream) {
            stream = (stream + 2) & 0x7fffffff;
        }
        for (int i = 0; i < 4; i++) {
            cur[5 + i] = uint8_t(s >> (24 - 8 * i));
        }
        cur.insert(cur.end(), k.payload.begin(), k.payload.end());
        if (k.counter_at != SIZE_MAX) {
            size_t v = sent_frames;
            for (size_t i = 0; i < 6; i++, v /= 26) {
                cur[9 + k.counter_at + i] = static_cast<uint8_t>('a' + v % 26);
            }
        }
        sent_frames++;
        left -= std::min(left, cur.size());
        cur_pos = 0;
        return true;
    }
};

struct Sink : ion::Transport {
    Flood& f;
    mutable size_t budget_in = 0;    // readable now
    mutable size_t read_cap = SIZE_MAX, write_cap = SIZE_MAX;
    mutable size_t budget_out = 0;   // writable now
    mutable size_t total_in = 0, total_out = 0;
    mutable size_t in_while_stuck = 0;  // read since the last write that could not send everything
    mutable bool stuck = false;
    explicit Sink(Flood& fl) : f(fl) {}
    std::expected<ssize_t, TErr> read(std::span<uint8_t> b) const override {
        size_t n = 0;
        const size_t most = std::min({b.size(), budget_in, read_cap});
        while (n < most) {
            if (f.cur_pos == f.cur.size() && !f.next()) {
                break;
            }
            const size_t k = std::min(most - n, f.cur.size() - f.cur_pos);
            memcpy(b.data() + n, f.cur.data() + f.cur_pos, k);
            f.cur_pos += k;
            n += k;
        }
        if (n == 0) {
            return std::unexpected(TErr::WantReadOrWrite);
        }
        budget_in -= n;
        total_in += n;
        in_while_stuck += stuck ? n : 0;
        return static_cast<ssize_t>(n);
    }
    std::expected<ssize_t, TErr> write(std::span<const uint8_t> b) const override {
        const size_t n = std::min({b.size(), budget_out, write_cap});
        if (n > 0 || b.empty()) {
            in_while_stuck = 0;
        }
        stuck = n < b.size();
        if (n == 0 && !b.empty()) {
            return std::unexpected(TErr::WantReadOrWrite);
        }
        budget_out -= n;
        total_out += n;
        return static_cast<ssize_t>(n);
    }
    void graceful_shutdown() const override {}
    std::expected<void, TErr> handshake() const override {
        return {};
    }
};

Kind request(Case& c, const std::string& path, bool incomplete, bool fresh_fields) {
    Kind k;
    k.type = h2::HEADERS;
    k.flags = h2::END_HEADERS | h2::END_STREAM;
    k.new_stream = true;
    auto literal = [&](uint8_t first, const std::string& n, const std::string& v) {
        k.payload.push_back(first);
        k.payload.push_back(static_cast<uint8_t>(n.size()));
        h2::append(k.payload, n);
        // lengths below 16384 as HPACK integers of prefix 7
        size_t l = v.size();
        if (l < 127) {
            k.payload.push_back(static_cast<uint8_t>(l));
        } else {
            k.payload.push_back(127);
            l -= 127;
            while (l >= 128) {
                k.payload.push_back(static_cast<uint8_t>(l % 128 + 128));
                l /= 128;
            }
            k.payload.push_back(static_cast<uint8_t>(l));
        }
        h2::append(k.payload, v);
    };
    k.payload.push_back(0x82);  // :method GET
    if (!incomplete) {
        literal(0x00, ":path", path);
    }
    if (fresh_fields) {  // indexed literals, different each time
        const size_t n = 1 + c.len(4);
        for (size_t i = 0; i < n; i++) {
            literal(0x40, "xaaaaaa", std::string(c.len(600), 'v'));
            k.counter_at = k.payload.size();
        }
        literal(0x40, "x", "bbbbbb");
        k.counter_at = k.payload.size() - 6;
    }
    if (c.chance(1, 3)) {  // a request as large as one frame can be
        literal(0x00, "y", std::string(c.u(15000), 'w'));
    }
    return k;
}
}  // namespace

static void prop(Case& c) {
    quiet_logs();
    install();
    // what handlers answer: every answer carries fields of its own, so that tables see new entries
    const size_t body_size = c.chance(1, 3) ? 0 : c.chance(1, 2) ? c.u(2000) : c.u(200000);
    const size_t field_size = c.chance(1, 3) ? 1 + c.u(3000) : 1 + c.u(40);
    const bool throws = c.chance(1, 10);
    ion::Router router;
    size_t calls = 0;
    router.add_route("/", "GET", [&](const ion::HttpRequest&) -> ion::HttpResponse {
        if (throws && calls % 2) {
            calls++;
            throw std::runtime_error("planned");
        }
        ion::HttpResponse r{};
        r.status_code = 200;
        r.body.resize(body_size);
        r.headers.push_back({"x-" + std::to_string(calls), std::string(field_size, 'f')});
        calls++;
        return r;
    });
    const size_t response = 9 * (2 + body_size / 16000) + body_size + 2 * field_size + 200;

    Flood f;
    bool asks = false, silent = true, continued = false;
    for (size_t i = 0, n = 1 + c.len(4); i < n; i++) {
        Kind k;
        switch (c.weighted({4, 2, 2, 1, 1, 1, 1, 2, 2, 2, 2})) {
            case 0:
                k = request(c, "/", false, c.flip());
                k.what = "requests";
                asks = true;
                silent = false;
                break;
            case 1: {
                std::vector<h2::Setting> s;
                for (size_t j = 0, m = c.len(40); j < m; j++) {
                    s.push_back({static_cast<uint16_t>(c.chance(1, 2) ? 1 : 8 + c.u(0xff00)),
                                 static_cast<uint32_t>(c.flip() ? 0xffffffff : c.skewed(0xffffffff))});
                }
                k.what = "SETTINGS";
                k.type = h2::SETTINGS;
                k.payload = h2::settings_payload(s);
                silent = false;
                break;
            }
            case 2:
                k.what = "unknown frames";
                k.type = static_cast<uint8_t>(0x0a + c.u(0xf5));
                k.payload = Bytes(c.flip() ? 16384 - c.u(3) : c.len(3000), 0xaa);
                k.new_stream = c.flip();
                break;
            case 3:
                k.what = "DATA";
                k.type = h2::DATA;
                k.flags = c.flip() ? h2::END_STREAM : 0;
                k.payload = Bytes(c.flip() ? 16384 - c.u(3) : c.len(3000), 0xaa);
                k.new_stream = c.flip();
                break;
            case 4:
                k.what = "WINDOW_UPDATE";
                k.type = h2::WINDOW_UPDATE;
                k.payload = {0, 0, 0, 1};
                k.new_stream = c.flip();
                break;
            case 5:
                k.what = "PRIORITY";
                k.type = h2::PRIORITY;
                k.payload = Bytes(5, 1);
                k.new_stream = true;
                break;
            case 6:
                k.what = "RST_STREAM";
                k.type = h2::RST_STREAM;
                k.payload = Bytes(4, 1);
                k.new_stream = true;
                break;
            case 7:
                k.what = "PING";
                k.type = h2::PING;
                k.payload = Bytes(8, 1);
                silent = false;
                break;
            case 8:
                // a header block that is continued for ever: alone, as nothing else may come in between
                k.what = "CONTINUATION";
                k.type = h2::CONTINUATION;
                k.payload = Bytes(c.chance(1, 3) ? 0 : c.flip() ? 16384 - c.u(3) : c.len(3000), 0x82);
                continued = true;
                break;
            case 10: {  // fields of one octet that each stand for kilobytes
                k = request(c, "/", false, false);
                const size_t v = 1 + c.u(std::min<size_t>(4000, 16300 - k.payload.size()));
                h2::append(k.payload, Bytes{0x40, 0x01, 'b'});
                h2::append(k.payload, ref::int_encode(v, 7, 0));
                h2::append(k.payload, Bytes(v, 'v'));
                const size_t most_refs = 16384 - k.payload.size();
                const size_t allowed = 200000 / (v + 33);
                const bool too_many = c.flip();
                k.payload.insert(k.payload.end(), too_many ? c.u(most_refs) : std::min(most_refs, allowed), 0x80 | 62);
                k.what = "expanding header blocks";
                asks = true;
                silent = false;
                break;
            }
            default:
                k = request(c, "/", true, c.flip());
                k.what = "incomplete requests";
                silent = false;
                break;
        }
        c.label(k.what);
        c.note([&] { return std::format("{}: payload of {}, new stream {}, counter {}", k.what, k.payload.size(), k.new_stream, k.counter_at); });
        if (continued) {
            f.kinds.clear();
            asks = false;
            f.kinds.push_back(std::move(k));
            break;
        }
        f.kinds.push_back(std::move(k));
    }
    // the smaller the frames, the costlier each octet
    size_t unit = 0;
    for (auto& k : f.kinds) {
        unit += 9 + k.payload.size();
    }
    unit /= f.kinds.size();
    const size_t octets = std::min<size_t>(3000000, unit * 20000) * (1 + c.u(3)) / 4;
    size_t cap = octets;
    if (asks && body_size > 2000) {  // and each answer costs as well
        cap = std::min(cap, unit * f.kinds.size() * (1 + 60000000 / (body_size + 1) / 4));
    }
    f.left = cap;
    f.cur.reserve(20000);
    h2::append(f.cur, h2::PREFACE);
    h2::append(f.cur, h2::frame(h2::SETTINGS, 0, 0, {}));
    if (continued) {
        h2::append(f.cur, h2::frame(h2::HEADERS, 0, 1, {0x82}));
    }

    auto owned = std::make_unique<Sink>(f);
    Sink& t = *owned;
    if (c.chance(1, 4)) {
        t.read_cap = 1 + c.u(3000);
    }
    // 0: everything can be written; 1: nothing after the first so many octets; 2: a trickle
    const auto mode = c.u(2);
    const size_t grant_out = 1 + c.u(c.flip() ? 300 : 20000);
    const size_t grant_in = 1 + c.u(c.flip() ? 3000 : 100000);
    const bool all_in = c.flip();
    t.budget_out = mode == 0 ? SIZE_MAX : mode == 1 ? c.u(c.flip() ? 100 : 100000) : 0;
    c.label(mode == 0 ? "writable" : mode == 1 ? "not writable" : "trickling");
    c.note([&] { return std::format("{} octets, body {}, field {}, mode {}, out {}, in {}", cap, body_size, field_size, mode, grant_out, all_in ? SIZE_MAX : grant_in); });
    const long before = live_bytes;
    auto conn = std::make_unique<ion::Http2Connection>(std::move(owned), "192.0.2.1", router);
    const long bound = (512 << 10) + 4 * static_cast<long>(response);
    const long step_bound = (4 << 20) + 8 * static_cast<long>(response);
    long most = 0, top = 0;
    size_t quiet_steps = 0, steps = 0, blocked = 0;
    Result r = Result::WantRead;
    while (quiet_steps < 3 && steps < 60000) {
        if (all_in || t.budget_in == 0) {
            t.budget_in = all_in ? SIZE_MAX : grant_in;
        }
        if (mode == 2) {
            t.budget_out = grant_out;
        }
        const size_t in = t.total_in, out = t.total_out;
        t.stuck = false;
        t.in_while_stuck = 0;
        peak_bytes = live_bytes;
        r = conn->process();
        steps++;
        top = std::max(top, peak_bytes - before);
        c.check(peak_bytes - before <= step_bound, [&] {
            return std::format("{} octets of memory were in use at once within one step ({} held after it)",
                               peak_bytes - before, live_bytes - before);
        });
        blocked += r == Result::WantWrite;
        most = std::max(most, live_bytes - before);
        c.check(live_bytes - before <= bound, [&] {
            return std::format("{} octets of memory are held after {} octets from the client ({} sent back, "
                               "{} answers of {} octets)",
                               live_bytes - before, t.total_in, t.total_out, calls, response);
        });
        c.check(t.in_while_stuck <= 256 * 1024, [&] {
            return std::format("{} octets were read while earlier answers could not be sent", t.in_while_stuck);
        });
        if (r == Result::DiscardConnection) {
            break;
        }
        quiet_steps = t.total_in == in && t.total_out == out && (r == Result::WantRead || r == Result::WantWrite) ? quiet_steps + 1 : 0;
    }
    c.note([&] { return std::format("{} steps ({} blocked), {} in, {} out, {} calls, at most {} of {} held, {} of {} within a step", steps, blocked, t.total_in, t.total_out, calls, most, bound, top, step_bound); });
    const bool flooded = f.left == 0;
    if (mode == 1 && asks && blocked && !flooded) {
        c.label("held back");
        c.nontrivial();
    }
    if (flooded && t.total_in > 200000) {
        c.label(silent ? "swallowed without answers" : "swallowed with answers");
        c.nontrivial();
    }
    conn.reset();
    c.check(live_bytes - before < 100000, [&] {
        return std::format("{} octets of memory are still held after the connection has ended", live_bytes - before);
    });
}

int main(int argc, char** argv) {
    Property p{.id = "C32",
               .rule = "endless streams of up to 3 MB of one to five kinds of frames in turn (requests with fresh "
                       "fields, answers of up to 200 KB, SETTINGS, DATA, unknown frames, ...), on a transport that "
                       "takes all, nothing or a trickle of the answers; non-trivial = the stream was held back by "
                       "blocked answers, or more than 200 KB of it were processed to the end",
               .fn = prop};
    p.quick_cases = 500;
    p.thorough_cases = 100000000;
    p.required_labels = {"requests", "SETTINGS", "unknown frames", "DATA", "incomplete requests", "PING",
                         "CONTINUATION", "expanding header blocks", "writable",
                         "not writable", "trickling", "held back", "swallowed without answers",
                         "swallowed with answers"};
    return run_main(argc, argv, p);
}
