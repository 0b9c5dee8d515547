// C38: servers and connections on threads of their own share nothing, and stop() works from any thread.
#include <spdlog/sinks/base_sink.h>

#include <barrier>
#include <thread>

#include "access_log.h"
#include "fuzzstream.h"
#include "http2_server.h"
#include "program.h"
#include "router.h"
#include "static_file_handler.h"

using namespace pbt;
using namespace conn;

extern "C" const char* __tsan_default_suppressions() {
    // not instrumented: they order their accesses in ways that cannot be seen
    return "called_from_lib:libssl.so\ncalled_from_lib:libcrypto.so\n";
}

namespace {
// what an actor came to; alone and in company it must be the same
struct Outcome {
    std::vector<Call> calls;
    Bytes out;
    std::vector<std::string> text;
    bool discarded = false;
    std::string error;
    bool operator==(const Outcome&) const = default;
};
struct Actor {
    virtual ~Actor() = default;
    virtual Outcome run() = 0;
    std::string what;
};

// the access log, which all share
class Lines : public spdlog::sinks::base_sink<std::mutex> {
   public:
    std::vector<std::string> lines;
    static const std::shared_ptr<Lines>& get() {
        static const auto sink = [] {
            auto s = std::make_shared<Lines>();
            auto l = std::make_shared<spdlog::logger>(ion::AccessLog::ACCESS_LOGGER_NAME, s);
            l->set_pattern("%v");
            l->set_level(spdlog::level::info);
            spdlog::register_logger(l);
            return s;
        }();
        return sink;
    }
    // without the times, in any order
    std::vector<std::string> take() {
        std::vector<std::string> out;
        for (auto& l : lines) {
            const size_t a = l.find('['), e = l.find(']', a);
            out.push_back(e == std::string::npos ? "no time: " + l : l.substr(0, a) + l.substr(e + 1));
        }
        lines.clear();
        std::sort(out.begin(), out.end());
        return out;
    }

   protected:
    void sink_it_(const spdlog::details::log_msg& m) override {
        lines.emplace_back(m.payload.data(), m.payload.size());
    }
    void flush_() override {}
};

// one connection over a transport in memory
struct OneConnection : Actor {
    Stream s;
    std::vector<Plan> plans;
    std::vector<size_t> cuts;
    size_t read_cap = SIZE_MAX, write_cap = SIZE_MAX;
    bool eof = false;
    explicit OneConnection(Case& c) {
        Stage st;
        Gen g{c};
        s = any_stream(c, g, st, c.chance(1, 3));
        plans = std::move(st.plans);
        for (size_t at = 0; at < s.in.size();) {
            at = std::min(s.in.size(), at + 1 + c.skewed(5000));
            cuts.push_back(at);
        }
        if (c.chance(1, 4)) {
            read_cap = 1 + c.u(2000);
        }
        if (c.chance(1, 4)) {
            write_cap = 1 + c.u(2000);
        }
        eof = c.flip();
        what = "a connection: " + s.what;
    }
    Outcome run() override {
        Rig rig;
        rig.stage.plans = plans;
        auto& w = *rig.wire;
        w.in = s.in;
        w.eof = eof;
        w.read_cap = read_cap;
        w.write_cap = write_cap;
        rig.open();
        Outcome o;
        for (const size_t at : cuts) {
            if (rig.discarded) {
                break;
            }
            w.deliver = at;
            if (!rig.settle()) {
                o.error = "does not settle";
                return o;
            }
        }
        o.calls = std::move(rig.stage.calls);
        o.out = std::move(w.out);
        o.discarded = rig.discarded;
        o.error = w.misuse;
        return o;
    }
};

// a whole server on loopback with clients of its own, stopped by another thread
struct WholeServer : Actor {
    bool over_tls, stop_at_once;
    std::vector<tls::Client::Options> options;  // one client each
    std::vector<std::pair<size_t, size_t>> bodies;  // size, requests
    std::unique_ptr<prog::Port> port;
    WholeServer(Case& c) : over_tls(c.flip()), stop_at_once(c.chance(1, 6)) {
        for (size_t i = 0, n = 1 + c.u(2); i < n; i++) {
            tls::Client::Options o;
            o.version = c.pick<int>({0, TLS1_3_VERSION, TLS1_2_VERSION});
            options.push_back(o);
            bodies.emplace_back(c.skewed(200000), 1 + c.u(5));
        }
        port = std::make_unique<prog::Port>(false);
        c.check(port->number != 0, "harness: no port is free");
        what = std::format("a server {} TLS with {} clients", over_tls ? "with" : "without", options.size());
    }
    static Bytes body_of(size_t n, size_t salt) {
        Bytes b(n);
        for (size_t i = 0; i < n; i++) {
            b[i] = static_cast<uint8_t>(i * 7 + i / 256 + salt);
        }
        return b;
    }
    std::string client(size_t k) {
        const int fd = prog::dial(port->number);
        if (fd < 0) {
            return "cannot connect";
        }
        struct Close {
            int fd;
            ~Close() {
                close(fd);
            }
        } closer{fd};
        std::unique_ptr<tls::Client> t;
        if (over_tls) {
            t = std::make_unique<tls::Client>(options[k]);
            t->pump();
        }
        Output out(true);
        out.announce({});
        Bytes todo;
        h2::append(todo, h2::PREFACE);
        h2::append(todo, h2::frame(h2::SETTINGS, 0, 0, {}));
        const std::string path = "/" + std::to_string(k);
        const size_t requests = bodies[k].second;
        for (size_t i = 0; i < requests; i++) {
            Bytes b{0x82, 0x86, 0x04, static_cast<uint8_t>(path.size())};
            b.insert(b.end(), path.begin(), path.end());
            h2::append(todo, h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, static_cast<uint32_t>(2 * i + 1), b));
        }
        Bytes pending = t ? t->take() : std::move(todo);
        bool asked = !t;
        const auto until = prog::sc::now() + prog::PATIENCE;
        std::vector<uint8_t> buf(65536);
        const auto done = [&] { return out.responses.size() == requests && out.responses.back().ended; };
        while (!done()) {
            if (prog::sc::now() > until) {
                return "not answered in time";
            }
            if (!out.error.empty()) {
                return out.error;
            }
            if (!pending.empty()) {
                const auto n = ::send(fd, pending.data(), pending.size(), MSG_NOSIGNAL);
                if (n > 0) {
                    pending.erase(pending.begin(), pending.begin() + n);
                } else if (errno != EAGAIN) {
                    return "the connection is lost";
                }
            }
            pollfd p{fd, static_cast<short>(POLLIN | (pending.empty() ? 0 : POLLOUT)), 0};
            ::poll(&p, 1, 100);
            const auto n = ::recv(fd, buf.data(), buf.size(), 0);
            if (n == 0 || (n < 0 && errno != EAGAIN)) {
                return "the connection is closed";
            }
            if (n > 0 && t) {
                t->receive({buf.data(), static_cast<size_t>(n)});
                out.feed(t->received);
                t->received.clear();
            } else if (n > 0) {
                out.feed({buf.data(), static_cast<size_t>(n)});
            }
            if (t) {
                if (t->failed) {
                    return "TLS fails";
                }
                if (t->connected && !asked) {
                    asked = true;
                    t->send(todo);
                }
                h2::append(pending, t->take());
            }
        }
        for (auto& r : out.responses) {
            if (r.fields.empty() || r.fields[0] != ref::Field{":status", "200"} || r.body != body_of(bodies[k].first, k)) {
                return "another answer than planned";
            }
        }
        return "served";
    }
    Outcome run() override {
        Outcome o;
        ion::ServerConfiguration cfg{};
        cfg.cleartext = !over_tls;
        if (over_tls) {
            cfg.cert_path = tls::server_pair().cert;
            cfg.key_path = tls::server_pair().key;
        }
        ion::Http2Server server{cfg};
        size_t calls = 0;
        for (size_t k = 0; k < bodies.size(); k++) {
            server.router().add_route("/" + std::to_string(k), "GET", [&, k](const auto&) {
                calls++;
                return ion::HttpResponse{.status_code = 200, .body = body_of(bodies[k].first, k)};
            });
        }
        std::string thrown;
        std::thread t([&] {
            try {
                server.start(port->number);
            } catch (const std::exception& e) {
                thrown = e.what();
            }
        });
        if (!stop_at_once) {
            const auto until = prog::sc::now() + prog::PATIENCE;
            for (int fd = -1; (fd = prog::dial(port->number)) < 0 || (close(fd), false);) {
                if (prog::sc::now() > until) {
                    o.error = "the server does not come up";
                    break;
                }
                std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
            for (size_t k = 0; k < options.size() && o.error.empty(); k++) {
                o.text.push_back(client(k));
                if (o.text.back() != "served") {
                    o.error = o.text.back();
                }
            }
        }
        server.stop();
        t.join();
        if (!thrown.empty()) {
            o.error = "the server throws: " + thrown;
        }
        if (!stop_at_once && o.error.empty()) {
            size_t want = 0;
            for (auto& b : bodies) {
                want += b.second;
            }
            if (calls != want) {
                o.error = "odd number of calls";
            }
        }
        return o;
    }
};

// a router with routes, middleware and a static mount
struct OneRouter : Actor {
    std::vector<std::pair<std::string, std::string>> asks;
    explicit OneRouter(Case& c) {
        for (size_t i = 0, n = 1 + c.len(40); i < n; i++) {
            asks.emplace_back(c.pick<std::string>({"GET", "HEAD", "POST"}),
                              c.pick<std::string>({"/s/a.txt", "/s/sub/style.css", "/s/", "/s/../secret.txt", "/s/none", "/s/big.bin", "/r", "/r2", "/s/sub"}));
        }
        what = std::format("a router asked {} times", asks.size());
    }
    Outcome run() override {
        ion::Router r;
        Outcome o;
        r.add_route("/r", "GET", [](const auto&) { return ion::HttpResponse{.status_code = 204}; });
        r.add_route("/r2", "GET", [](const auto&) { return ion::HttpResponse{.status_code = 299}; });
        r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", prog::Files::get().root));
        r.add_middleware([&](auto next) {
            return [&, next](const ion::HttpRequest& q) {
                o.text.push_back("before " + q.path);
                return next(q);
            };
        });
        for (auto& [m, p] : asks) {
            const auto a = r.get_handler(p, m)(ion::HttpRequest{.method = m, .path = p});
            o.text.push_back(std::to_string(a.status_code));
            for (auto& h : a.headers) {
                o.text.push_back(std::string(h.name) + ": " + std::string(h.value));
            }
            h2::append(o.out, a.body);
        }
        return o;
    }
};
}  // namespace

static void prop(Case& c) {
    quiet_logs(c.chance(1, 10));
    spdlog::get(ion::AccessLog::ACCESS_LOGGER_NAME)->set_level(spdlog::level::info);
    auto& log = *Lines::get();
    log.lines.clear();
    std::vector<std::unique_ptr<Actor>> actors;
    size_t servers = 0;
    for (size_t i = 0, n = 2 + c.u(4); i < n; i++) {
        switch (c.weighted({6, 2, 1})) {
            case 0:
                actors.push_back(std::make_unique<OneConnection>(c));
                break;
            case 1:
                actors.push_back(std::make_unique<WholeServer>(c));
                servers++;
                break;
            default:
                actors.push_back(std::make_unique<OneRouter>(c));
        }
        c.note(actors.back()->what);
    }
    // first in company: what is only set up once is then set up by several at the same time
    std::vector<Outcome> together(actors.size()), alone(actors.size());
    {
        std::barrier start(static_cast<std::ptrdiff_t>(actors.size()));
        std::vector<std::thread> threads;
        for (size_t i = 0; i < actors.size(); i++) {
            threads.emplace_back([&, i] {
                start.arrive_and_wait();
                together[i] = actors[i]->run();
            });
        }
        for (auto& t : threads) {
            t.join();
        }
    }
    const auto logged = log.take();
    for (size_t i = 0; i < actors.size(); i++) {
        alone[i] = actors[i]->run();
        const auto who = [&] { return std::format("{} of {} ({})", i + 1, actors.size(), actors[i]->what); };
        c.check(together[i].error.empty(), [&] { return who() + ": " + together[i].error; });
        c.check(alone[i].error.empty(), [&] { return who() + ", alone: " + alone[i].error; });
        c.check(together[i].calls == alone[i].calls, [&] { return who() + ": other handler calls in company than alone, " + diff_calls(alone[i].calls, together[i].calls); });
        c.check(together[i] == alone[i], [&] { return who() + ": another outcome in company than alone"; });
    }
    const auto logged_alone = log.take();
    c.check(logged == logged_alone, [&] {
        std::string d;
        for (size_t i = 0; i < std::max(logged.size(), logged_alone.size()) && d.empty(); i++) {
            const auto at = [&](const auto& v) { return i < v.size() ? v[i] : "nothing"; };
            if (at(logged) != at(logged_alone)) {
                d = quote(at(logged)) + " instead of " + quote(at(logged_alone));
            }
        }
        return "another access log in company than alone: " + d;
    });
    if (logged.size() >= 2) {
        c.label("access log");
    }
    if (servers >= 2) {
        c.label("several servers");
    }
    if (servers) {
        c.label("stopped by another thread");
    }
    c.nontrivial();
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    (void)prog::Files::get();
    (void)Lines::get();
    Property p{.id = "C38",
               .rule = "two to six actors - connections with streams of any quality, whole servers with clients on loopback, routers - run "
                       "at the same time on threads of their own under ThreadSanitizer, then one after the other; every case is non-trivial",
               .fn = prop};
    p.quick_cases = 6000;
    p.thorough_cases = 100000000;
    p.case_cpu_s = 120;
    p.required_labels = {"several servers", "access log", "stopped by another thread"};
    return run_main(argc, argv, p);
}
