// C33: the application log is made of whole lines, each attributed to the request it is about.
#include <regex>

#include "program.h"

using namespace prog;

static const std::string MARK = "MaRk";

// text that tries to pass for lines of the log
static std::string hostile(Case& c) {
    std::string s = c.str(c.len(6), "ab/.");
    for (size_t i = 0, n = c.u(2); i <= n; i++) {
        switch (c.u(5)) {
            case 0:
                s += "\n" + MARK;
                break;
            case 1:
                s += "\r\n" + MARK;
                break;
            case 2:
                s += "\n[2026-01-02 03:04:05.678] [info] " + MARK;
                break;
            case 3:
                s += "\n[2026-01-02 03:04:05.678] [info] [01000000000000000000000000000001] " + MARK;
                break;
            case 4:
                s += "\x1b[2K\x1b[1A" + MARK;
                break;
            default:
                s += std::string(1, static_cast<char>(c.u(31))) + "x{}%v\x7f";
        }
    }
    return s;
}

static void prop(Case& c) {
    quiet_logs();
    const auto& f = Files::get();
    Port port(false);
    c.check(port.number != 0, "harness: no port is free");
    const std::string level = c.pick<std::string>({"trace", "debug", "info", "warn"});
    const bool traced = !c.chance(1, 4), is_tls = c.chance(1, 5), mounted = c.chance(3, 4);
    std::vector<std::string> args{"-p", std::to_string(port.number), "-l", level}, env{"PATH=/usr/bin:/bin"};
    if (is_tls) {
        env.push_back("ION_TLS_CERT_PATH=" + f.good_cert);
        env.push_back("ION_TLS_KEY_PATH=" + f.good_key);
    } else {
        args.push_back("--cleartext");
    }
    if (mounted) {
        args.insert(args.end(), {"--static", "/static", f.root});
    }
    if (c.flip()) {
        args.push_back("--under-test");
    }
    if (c.flip()) {
        args.push_back("--status-page");
    }
    if (c.chance(1, 4)) {
        args.insert(args.end(), {"--custom-404-file-path", f.page404});
    }
    if (!traced) {
        env.push_back("OTEL_SDK_DISABLED=true");
    } else if (c.flip()) {
        env.push_back("OTEL_SDK_DISABLED=false");
    }
    Program prog;
    prog.start(args, env);
    int first = -1;
    const auto until = sc::now() + PATIENCE;
    while ((first = dial(port.number)) < 0) {
        c.check(!prog.ended(), [&] { return "the program " + prog.outcome() + " instead of serving: " + quote(prog.output(), 600); });
        c.check(sc::now() < until, "the program does not serve");
        usleep(500);
    }
    // ---------------- requests full of octets that are special in a log, one after the other
    size_t asked = 0;
    bool nasty = false, blocked = false;
    std::vector<std::unique_ptr<Net>> nets;
    for (size_t i = 0, n = 1 + c.u(2); i < n; i++) {
        const int fd = i == 0 ? first : dial(port.number);
        c.check(fd >= 0, "the server accepts no more connections");
        nets.push_back(std::make_unique<Net>(c, fd, is_tls));
        auto& net = *nets.back();
        c.check(net.secure(), "the TLS handshake does not complete");
        Bytes b;
        h2::append(b, h2::PREFACE);
        h2::append(b, h2::frame(h2::SETTINGS, 0, 0, {}));
        net.send(b);
        net.out.announce({});
    }
    const size_t total = c.len(14);
    std::vector<std::string> tags;
    while (asked < total) {
        auto& net = *c.pick(nets);
        ref::Fields fields;
        const std::string tag = std::format("TaG{:04}x", asked);
        // the tag comes first, so that the first line about this request to quote anything quotes it
        fields.push_back({"x-tag", tag});
        std::string path;
        switch (c.u(4)) {
            case 0:
                path = "/static/" + hostile(c);
                nasty = true;
                break;
            case 1:
                path = "/static/../" + hostile(c);
                blocked |= mounted;
                nasty = true;
                break;
            case 2:
                path = hostile(c);
                nasty = true;
                break;
            case 3:
                path = "/static/a.txt";
                break;
            default:
                path = c.pick<std::string>({"/_ion/status", "/_tests/ok", "/none"});
        }
        if (!c.chance(1, 8)) {
            fields.push_back({":path", path});
        } else {
            c.label("incomplete");
        }
        fields.push_back({":method", c.chance(1, 4) ? hostile(c) : c.pick<std::string>({"GET", "GET", "HEAD"})});
        for (size_t i = 0, n = c.u(2); i < n; i++) {
            fields.push_back({c.flip() ? "user-agent" : "x" + hostile(c), hostile(c)});
            nasty = true;
        }
        const Bytes block = net.enc.block(c, fields);
        const Bytes fr = h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, net.stream, block);
        net.stream += 2;
        const size_t want = net.out.responses.size() + 1;
        c.note([&] { return ref::show(fields); });
        net.send(fr);
        c.check(net.until([&] { return !net.out.error.empty() || (net.out.responses.size() >= want && net.out.responses[want - 1].ended && net.out.at_boundary()); }),
                [&] { return "not answered: " + ref::show(fields); });
        c.check(net.out.error.empty(), net.out.error);
        tags.push_back(tag);
        asked++;
    }
    if (c.chance(1, 3)) {
        nets.pop_back();
    }
    kill(prog.pid, SIGTERM);
    c.check(prog.wait_end(), "the program goes on although it is to end");
    c.check(WIFEXITED(prog.status) && WEXITSTATUS(prog.status) == 0, "the program " + prog.outcome());
    // ---------------- the log
    const std::string out = prog.output();
    c.check(out.empty() || out.back() == '\n', "the last line is not complete");
    static const std::regex form(R"(^\[(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)\.\d{3}\] \[(trace|debug|info|warning|error|critical)\] (\[([0-9a-f]{32})\] )?)");
    std::vector<std::string> ids;
    std::map<std::string, size_t> tagged;  // tag -> position of the id of the first line with an id quoting it
    size_t lines = 0, with_id = 0, quoting = 0;
    bool last_has_id = false;
    for (size_t at = 0; at < out.size();) {
        const size_t e = out.find('\n', at);
        const std::string line = out.substr(at, e - at);
        at = e + 1;
        std::smatch m;
        c.check(std::regex_search(line, m, form), [&] { return std::format("line {} of the log is {}", lines, quote(line, 300)); });
        const std::string msg = m.suffix();
        for (const char ch : line) {
            c.check(static_cast<uint8_t>(ch) >= 0x20 && ch != 0x7f, [&] { return std::format("line {} of the log contains a control character: {}", lines, quote(line, 300)); });
        }
        c.check(!msg.starts_with(MARK), [&] { return std::format("line {} of the log was written by a client: {}", lines, quote(line, 300)); });
        quoting += msg.find(MARK) != std::string::npos;
        last_has_id = m[8].matched;
        if (m[9].matched) {
            with_id++;
            const std::string id = m[9].str();
            if (ids.empty() || ids.back() != id) {
                c.check(std::find(ids.begin(), ids.end(), id) == ids.end(), [&] { return std::format("line {} of the log carries the id of an earlier request: {}", lines, quote(line, 300)); });
                ids.push_back(id);
            }
            for (size_t i = 0; i < tags.size(); i++) {
                if (msg.find(tags[i]) != std::string::npos) {
                    tagged.try_emplace(tags[i], ids.size() - 1);
                }
            }
        } else {
            // a request's fields are only ever spoken of while it is handled (or afterwards, in tables)
            for (size_t i = 0; i < tags.size(); i++) {
                if (traced && msg.find(tags[i]) != std::string::npos) {
                    c.fail(std::format("line {} of the log, about request {}, carries no id: {}", lines, i, quote(line, 300)));
                }
            }
            c.check(msg.find(MARK) == std::string::npos || !traced, [&] { return std::format("line {} of the log, about a request, carries no id: {}", lines, quote(line, 300)); });
        }
        lines++;
    }
    c.note([&] { return std::format("{} lines at {}, {} with {} ids, {} quote a client", lines, level, with_id, ids.size(), quoting); });
    c.check(!last_has_id || level == "warn", "the last line carries the id of a request");
    if (!traced) {
        c.check(ids.empty(), "lines carry trace ids although tracing is disabled");
        c.label("not traced");
    } else if (level != "warn") {
        c.check(ids.size() <= asked, [&] { return std::format("{} different ids for {} requests", ids.size(), asked); });
        const std::string* last = nullptr;
        size_t last_id = 0;
        for (auto& tag : tags) {  // in the order they were handled, each under an id of its own
            if (const auto it = tagged.find(tag); it != tagged.end()) {
                c.check(!last || it->second > last_id, [&] { return std::format("request {} is logged under the id of request {} or an earlier one", tag, *last); });
                last = &tag;
                last_id = it->second;
                c.label("attributed");
            }
        }
    }
    if (quoting && nasty) {
        c.nontrivial();
        c.label("quoting at " + level);
        if (blocked) {
            c.label("refused path quoted");
        }
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    Property p{.id = "C33",
               .rule = "the real program at four log levels, with and without tracing, one to three raw clients sending "
                       "up to fourteen requests whose paths, methods and fields contain line ends, forged line heads, "
                       "terminal sequences and format specifiers; non-trivial = the log quotes such text",
               .fn = prop};
    p.quick_cases = 6000;
    p.thorough_cases = 10000000;
    p.case_cpu_s = 120;
    p.quick_max_s = 120;
    p.required_labels = {"attributed", "not traced", "quoting at trace", "quoting at debug", "quoting at warn", "quoting at info", "refused path quoted", "incomplete"};
    return run_main(argc, argv, p);
}
