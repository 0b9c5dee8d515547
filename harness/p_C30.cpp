// C30: the server program does what its command line says, end to end.
#include <regex>

#include "program.h"

using namespace prog;

struct Config {
    std::vector<std::string> args, env;
    std::string level = "info", prefix, log, page404;
    bool tls = false, under_test = false, status = false;
    std::string refused;  // why it must not serve
    bool informs = false;  // --help, --version
    bool occupied = false, default_port = false;
};

static std::string mime(const std::string& path) {
    const auto dot = path.rfind('.');
    const std::string e = dot == std::string::npos ? "" : path.substr(dot);
    return e == ".html" ? "text/html; charset=utf-8" : e == ".txt" ? "text/plain; charset=utf-8" : e == ".css" ? "text/css; charset=utf-8" : e == ".json" ? "application/json" : "application/octet-stream";
}

static void option(Case& c, std::vector<std::vector<std::string>>& groups, const std::string& name, const std::string& value) {
    const bool brief = name.size() == 2;
    if (c.chance(1, 3)) {
        groups.push_back({brief ? name + value : name + "=" + value});
    } else {
        groups.push_back({name, value});
    }
}

static Config make(Case& c, uint16_t port) {
    Config k;
    const auto& f = Files::get();
    std::vector<std::vector<std::string>> g;
    const bool spoil = c.chance(1, 4);  // something is wrong
    const size_t wrong = spoil ? 1 + c.u(11) : 0;
    auto refuse = [&](const std::string& why) { k.refused = why; };
    // port
    k.default_port = port == 8443;
    if (wrong == 1) {
        const auto bad = c.pick<std::string>({"0", "65536", "-1", "http", "99999999999999999999", "80x", ""});
        option(c, g, c.flip() ? "--port" : "-p", bad);
        if (bad.empty() && g.back().size() == 1 && g.back()[0] == "-p") {
            g.back().push_back("nothing");
        }
        refuse("port " + bad);
    } else if (port != 8443 || c.flip()) {
        option(c, g, c.flip() ? "--port" : "-p", std::to_string(port));
    }
    // log level
    if (c.chance(2, 3)) {
        k.level = c.pick<std::string>({"trace", "debug", "info", "warn", "error", "critical", "off"});
        std::string typed = k.level;
        if (c.chance(1, 3)) {
            for (auto& ch : typed) {
                ch = c.flip() ? static_cast<char>(toupper(ch)) : ch;
            }
            c.label("level in another case");
        }
        if (wrong == 2) {
            typed = c.pick<std::string>({"verbose", "warning", "1", "tracee", "inf"});
            refuse("level " + typed);
        }
        option(c, g, c.flip() ? "--log-level" : "-l", typed);
    }
    // TLS
    k.tls = !c.chance(2, 5);
    if (!k.tls) {
        g.push_back({"--cleartext"});
    }
    std::string cert = f.good_cert, key = f.good_key;
    bool unusable = false;
    if (wrong == 3 || wrong == 4) {
        unusable = true;
        switch (c.u(5)) {
            case 0:
                cert = dir() + "/missing.crt";
                break;
            case 1:
                key = dir() + "/missing.key";
                break;
            case 2:
                key = f.other_key;
                break;
            case 3:
                cert = f.junk;
                break;
            case 4:
                key = f.junk;
                break;
            default:
                std::swap(cert, key);
        }
    }
    const bool no_cert = wrong == 5, no_key = wrong == 6;
    unusable |= no_cert || no_key;
    if (k.tls || c.chance(1, 3)) {  // without TLS the files are of no interest
        if (!no_cert) {
            const auto how = c.u(2);
            if (how >= 1) {
                k.env.push_back("ION_TLS_CERT_PATH=" + (how == 2 ? f.junk : cert));
                c.label("certificate by environment");
            }
            if (how != 1) {
                option(c, g, "--tls-cert-path", cert);
            }
            if (how == 2) {
                c.label("option over environment");
            }
        }
        if (!no_key) {
            const auto how = c.u(2);
            if (how >= 1) {
                k.env.push_back("ION_TLS_KEY_PATH=" + (how == 2 ? f.other_key : key));
            }
            if (how != 1) {
                option(c, g, "--tls-key-path", key);
            }
        }
        if (k.tls && unusable) {
            refuse("certificate or key");
        }
    }
    // features
    if (c.flip()) {
        k.prefix = c.pick<std::string>({"/", "/static", "/static/", "/a/b", "/_ion", "/files and more"});
        g.push_back({c.flip() ? "--static" : "-s", k.prefix, f.root});
        if (wrong == 7) {
            g.back().pop_back();
            refuse("half a mapping");
        }
    }
    if (c.flip()) {
        k.log = dir() + "/access.log";
        option(c, g, "--access-log", k.log);
    }
    if (c.flip()) {
        k.page404 = f.page404;
        option(c, g, "--custom-404-file-path", k.page404);
    }
    if (c.flip()) {
        k.under_test = true;
        g.push_back({"--under-test"});
    }
    if (c.flip()) {
        k.status = true;
        g.push_back({"--status-page"});
    }
    if (wrong == 8) {
        g.push_back({c.pick<std::string>({"--verbose", "-x", "--tls", "--Port", "stray", "--cleartextt"})});
        refuse("unknown argument " + g.back()[0]);
    }
    if (wrong == 9 && k.refused.empty()) {
        g.push_back({c.pick<std::string>({"--help", "-h", "--version", "-v"})});
        k.informs = true;
    }
    if (wrong >= 10 && k.refused.empty()) {
        k.occupied = true;
        refuse("occupied port");
    }
    for (size_t i = g.size(); i > 1; i--) {
        std::swap(g[i - 1], g[c.u(i - 1)]);
    }
    // an option with several values ends where the next option begins, not before a stray argument
    if (wrong == 7 && !k.refused.empty()) {
        std::stable_partition(g.begin(), g.end(), [](auto& x) { return x[0] != "--static" && x[0] != "-s"; });
    }
    for (auto& x : g) {
        k.args.insert(k.args.end(), x.begin(), x.end());
    }
    k.env.push_back("OTEL_SDK_DISABLED=" + c.pick<std::string>({"true", "false"}));
    k.env.push_back("PATH=/usr/bin:/bin");
    k.env.push_back("TZ=UTC");
    return k;
}

struct Expected {
    int status = 404;
    std::optional<std::string> body;  // if it is known
    std::string type, length;
    bool page = false, forbidden = false;
};
static Expected expect(const Config& k, const std::string& method, const std::string& path) {
    const auto& f = Files::get();
    Expected e;
    e.body = "";
    const bool get = method == "GET", head = method == "HEAD";
    bool routed = false;
    auto is = [&](int status, std::string body) {
        e.status = status;
        e.body = std::move(body);
        routed = true;
    };
    if (k.under_test && get) {
        if (path == "/_tests/ok" || path == "/_tests/no_new_privs") {
            is(200, "");
        } else if (path == "/_tests/no_content") {
            is(204, "");
        } else if (path == "/_tests/medium_body") {
            is(200, std::string(128 * 1024, 'A'));
        } else if (path == "/_tests/large_body") {
            is(200, std::string(2 * 1024 * 1024, 'A'));
        }
    }
    if (k.status && get && path == "/_ion/status") {
        e.status = 200;
        e.body.reset();
        e.type = "text/html; charset=utf-8";
        e.page = routed = true;
    }
    if (!routed && (get || head) && !k.prefix.empty() && path.starts_with(k.prefix)) {
        std::string rel = path.substr(k.prefix.size());
        rel = rel.substr(0, rel.find('?'));
        if (rel.empty() || rel == "/") {
            rel = "/index.html";
        }
        rel = rel.starts_with("/") ? rel.substr(1) : rel;
        if (rel.find("..") != std::string::npos) {
            e.forbidden = true;
            e.status = 0;
            e.body.reset();
        } else if (auto it = f.content.find(rel); it != f.content.end()) {
            e.status = 200;
            e.body = get ? it->second : "";
            e.length = std::to_string(it->second.size());
            e.type = mime(rel);
        }
    }
    if (e.status == 404 && !k.page404.empty()) {
        const std::string p = "<h1>nothing here</h1>";
        e.body = head ? "" : p;
        e.length = std::to_string(p.size());
        e.type = mime(k.page404);
    }
    return e;
}

static const std::string* field(const conn::Response& r, const std::string& name) {
    for (auto& [n, v] : r.fields) {
        if (n == name) {
            return &v;
        }
    }
    return nullptr;
}
static std::string shown(const std::vector<std::string>& args) {
    std::string s;
    for (auto& a : args) {
        s += " " + quote(a);
    }
    return s;
}

struct Logged {
    std::string method, path, agent;
    int status;
    size_t size;
};

static void prop(Case& c) {
    quiet_logs();
    const auto& f = Files::get();
    // the smallest and largest ones too
    const auto edge = static_cast<uint16_t>(c.chance(1, 3) ? c.pick<uint64_t>({1 + c.u(1022), 1, 1023, 1024, 32767, 32768, 65534, 65535}) : 0);
    Port port(c.chance(1, 20), edge);
    if (edge && port.number == edge) {
        c.label(edge < 1024 ? "small port" : "edge port");
    }
    c.check(port.number != 0, "harness: no port is free");
    const Config k = make(c, port.number);
    c.note([&] { return "ion-server" + shown(k.args) + ", environment" + shown(k.env) + (k.refused.empty() ? "" : ": to be refused, " + k.refused); });
    if (!k.log.empty()) {
        unlink(k.log.c_str());
    }
    if (k.occupied) {
        c.check(port.occupy(), "harness: cannot occupy the port");
    }
    Program prog;
    prog.start(k.args, k.env);
    if (!k.refused.empty() || k.informs) {
        // it must not serve
        const auto until = sc::now() + PATIENCE;
        while (!prog.ended()) {
            if (!k.occupied) {
                const int fd = dial(port.number);
                if (fd >= 0) {
                    close(fd);
                    c.fail("the program serves although it must not: " + k.refused);
                }
            }
            c.check(sc::now() < until, "the program goes on although it must not: " + k.refused);
            usleep(2000);
        }
        const std::string out = prog.output();
        c.note([&] { return "it " + prog.outcome() + ": " + quote(out, 400); });
        if (k.informs) {
            c.check(WIFEXITED(prog.status) && WEXITSTATUS(prog.status) == 0, "asked for help or its version, the program " + prog.outcome());
            c.check(!out.empty(), "nothing is printed");
            c.label("help or version");
        } else {
            c.check(WIFEXITED(prog.status) && WEXITSTATUS(prog.status) != 0 && WEXITSTATUS(prog.status) < 98 + 30, [&] { return std::format("{}: the program {}", k.refused, prog.outcome()); });
            c.label("refused: " + k.refused.substr(0, k.refused.find(' ')));
        }
        return;
    }
    // ---------------- it serves
    int first = -1;
    const auto until = sc::now() + PATIENCE;
    while ((first = dial(port.number)) < 0) {
        c.check(!prog.ended(), [&] { return "the program " + prog.outcome() + " instead of serving: " + quote(prog.output(), 600); });
        c.check(sc::now() < until, "the program does not serve");
        usleep(500);
    }
    std::vector<std::string> paths{"/", "/_ion/status", "/_ion/status?x", "/nothing", "/_tests/ok", "/_tests/no_content", "/_tests/no_new_privs",
                                   "/_tests/medium_body", "/_tests/none", "/_ion", "*"};
    if (c.chance(1, 6)) {
        paths.push_back("/_tests/large_body");
    }
    for (auto& [n, s] : f.content) {
        const std::string p = k.prefix.empty() ? "/static" : k.prefix;
        paths.push_back(p + (p.ends_with("/") ? "" : "/") + n);
    }
    if (!k.prefix.empty()) {
        for (auto& s : {"", "/", "/?q", "/missing", "/a.txt?q=1", "/../secret.txt", "/sub/../../secret.txt"}) {
            paths.push_back(k.prefix + s);
        }
    }
    std::vector<Logged> logged;
    uint64_t received = 0;
    std::map<int, uint64_t> codes;
    size_t features = 0;
    std::vector<std::unique_ptr<Net>> open;
    const std::string ip = "127.0.0.1";
    auto judge = [&](const conn::Response& r, const std::string& method, const std::string& path, const std::string& agent) {
        const Expected e = expect(k, method, path);
        const std::string who = std::format("{} {}: ", method, quote(path, 80));
        const std::string* st = field(r, ":status");
        c.check(st && st->size() == 3, who + "no status");
        const int status = std::stoi(*st);
        const std::string body(r.body.begin(), r.body.end());
        c.note([&] { return std::format("{}{} with {} octets", who, status, body.size()); });
        received++;
        if (e.forbidden) {
            c.check(status == 403, who + "answered with " + *st);  // a custom page is for what is not found
            c.check(body.empty(), who + "refused with a body");
            c.check(body.find("SECRET") == std::string::npos, who + "a file from outside is served");
            c.label("out of the mapping");
        } else {
            c.check(status == e.status, [&] { return std::format("{}answered with {} instead of {}", who, status, e.status); });
        }
        if (e.body) {
            c.check(body == *e.body, [&] { return std::format("{}body of {} octets instead of {}: {}", who, body.size(), e.body->size(), quote(body, 80)); });
        }
        if (!e.type.empty()) {
            const auto* t = field(r, "content-type");
            c.check(t && *t == e.type, [&] { return who + "content type " + (t ? *t : "missing") + " instead of " + e.type; });
        }
        if (!e.length.empty() && !e.forbidden) {
            const auto* l = field(r, "content-length");
            c.check(l ? *l == e.length : e.length == "0", [&] { return who + "length " + (l ? *l : "missing") + " instead of " + e.length; });
        }
        if (e.page) {
            auto shows = [&](const std::string& re) {
                std::smatch m;
                return std::regex_search(body, m, std::regex(re)) ? m[1].str() : std::string();
            };
            const auto n = shows("Requests</span>\\s*<span[^>]*>\\s*([0-9]+)");
            c.check(n == std::to_string(received), [&] { return std::format("{}{} requests shown instead of {}", who, n, received); });
            for (auto& [code, count] : codes) {
                const auto s = shows(std::format("{}\\s*</span>\\s*([0-9]+)", code));
                c.check(s == std::to_string(count), [&] { return std::format("{}{} answers with {} shown instead of {}", who, s, code, count); });
            }
            c.label("status page");
        }
        codes[status]++;
        const auto* server = field(r, "server");
        c.check(server != nullptr && server->starts_with("ion"), who + "no server field");
        logged.push_back({method, path, agent, status, body.size()});
        if (status == 200 || status == 204) {
            features++;
            c.label(e.page ? "page" : path.starts_with("/_tests") ? "test route" : "file");
        }
        if (status == 404 && !k.page404.empty()) {
            c.label("custom 404");
        }
        if (method == "HEAD" && status == 200) {
            c.label("HEAD of a file");
        }
    };
    auto agent_of = [&] { return c.chance(1, 2) ? std::string() : c.pick<std::string>({"curl/8", "a b", "x\"y"}); };
    const size_t sessions = 1 + c.u(3);
    for (size_t i = 0; i < sessions; i++) {
        const int fd = i == 0 ? first : dial(port.number);
        c.check(fd >= 0, "the server accepts no more connections");
        auto net = std::make_unique<Net>(c, fd, k.tls);
        c.check(net->secure(), "the TLS handshake does not complete");
        if (k.tls) {
            c.check(net->t->alpn == "h2", "the protocol negotiated is " + quote(net->t->alpn));
        }
        Bytes b;
        h2::append(b, h2::PREFACE);
        h2::append(b, h2::frame(h2::SETTINGS, 0, 0, {}));
        net->send(b);
        net->out.announce({});
        const size_t n = c.len(12);
        struct Asked {
            std::string method, path, agent;
        };
        for (size_t done = 0; done < n;) {
            std::vector<Asked> batch;
            b.clear();
            for (size_t m = std::min(n - done, 1 + c.u(4)); m > 0; m--) {
                batch.push_back({c.weighted({6, 2, 1}) == 0 ? "GET" : c.flip() ? "HEAD" : "POST", c.pick(paths), agent_of()});
                h2::append(b, net->request(batch.back().method, batch.back().path, batch.back().agent));
            }
            net->send(b);
            const size_t want = done + batch.size();
            c.check(net->until([&] { return !net->out.error.empty() || (net->out.responses.size() >= want && net->out.responses[want - 1].ended && net->out.at_boundary()); }),
                    [&] { return std::format("{} of {} requests are answered", net->out.responses.size(), want); });
            c.check(net->out.error.empty(), net->out.error);
            for (auto& a : batch) {
                judge(net->out.responses[done++], a.method, a.path, a.agent);
            }
        }
        if (c.flip()) {
            open.push_back(std::move(net));
        }
    }
    // curl, too
    if (c.chance(1, 8)) {
        const std::string out = dir() + "/curl.out";
        const std::string path = c.pick<std::string>({"/_tests/ok", "/_tests/medium_body", "/_ion/status", "/nothing"});
        const std::string cmd = std::format("curl -sk --max-time 20 {} -o '{}' -w '%{{http_code}} %{{size_download}} %{{http_version}}' '{}://127.0.0.1:{}{}' 2>/dev/null",
                                            k.tls ? "--http2" : "--http2-prior-knowledge", out, k.tls ? "https" : "http", port.number, path);
        std::string said;
        if (FILE* p = popen(cmd.c_str(), "r")) {
            char buf[200];
            while (fgets(buf, sizeof buf, p)) {
                said += buf;
            }
            pclose(p);
        }
        const Expected e = expect(k, "GET", path);
        unsigned code = 0, size = 0, version = 0;
        c.check(sscanf(said.c_str(), "%u %u %u", &code, &size, &version) == 3, "curl says " + quote(said));
        c.check(code == static_cast<unsigned>(e.status) && version == 2, [&] { return std::format("curl {}: {} instead of {}", path, said, e.status); });
        if (e.body) {
            c.check(size == e.body->size(), [&] { return std::format("curl {}: {} octets instead of {}", path, size, e.body->size()); });
        }
        received++;
        codes[static_cast<int>(code)]++;
        logged.push_back({"GET", path, "curl/*", e.status, size});
        unlink(out.c_str());
        c.label("curl");
    }
    // the access log is read while the program runs
    if (!k.log.empty() && !logged.empty() && c.flip()) {
        const auto lines_so_far = [&] {
            std::ifstream in(k.log, std::ios::binary);
            size_t n = 0;
            for (std::string s; std::getline(in, s);) {
                n++;
            }
            return n;
        };
        const auto since = sc::now();
        while (lines_so_far() < logged.size()) {
            c.check(sc::now() - since < std::chrono::seconds(10), [&] {
                return std::format("{} lines in the access log of the running program, {} requests answered", lines_so_far(), logged.size());
            });
            usleep(2000);
        }
        c.label("access log of the running program");
    }
    // ---------------- it ends
    if (c.chance(1, 5)) {  // in the middle of something
        const int fd = dial(port.number);
        if (fd >= 0) {
            auto net = std::make_unique<Net>(c, fd, k.tls && c.flip());
            if (!k.tls) {
                Bytes b;
                h2::append(b, h2::PREFACE);
                b.resize(c.u(b.size()));
                net->send(b);
            }
            open.push_back(std::move(net));
            c.label("ended while busy");
        }
    }
    const int sig = c.flip() ? SIGINT : SIGTERM;
    const auto asked = sc::now();
    kill(prog.pid, sig);
    c.check(prog.wait_end(), "the program goes on although it is to end");
    const std::string out = prog.output();
    c.note([&] { return "it " + prog.outcome() + ": " + quote(out, 600); });
    c.check(WIFEXITED(prog.status) && WEXITSTATUS(prog.status) == 0, [&] { return std::format("on {} the program {}", sig == SIGINT ? "SIGINT" : "SIGTERM", prog.outcome()); });
    c.label(sig == SIGINT ? "SIGINT" : "SIGTERM");
    if (const int fd = dial(port.number); fd >= 0) {
        close(fd);
        c.fail("somebody still listens");
    }
    for (auto& n : open) {
        c.check(n->until([&] { return n->eof || (n->t && (n->t->ended || n->t->failed)); }), "a client is not told that its connection is over");
    }
    // ---------------- what it wrote
    static const std::vector<std::string> levels{"trace", "debug", "info", "warning", "error", "critical", "off"};
    const std::string lowest = k.level == "warn" ? "warning" : k.level;
    const auto rank = [&](const std::string& l) { return std::find(levels.begin(), levels.end(), l) - levels.begin(); };
    std::set<std::string> seen;
    for (size_t at = 0; at < out.size();) {
        size_t e = out.find('\n', at);
        e = e == std::string::npos ? out.size() : e;
        const std::string line = out.substr(at, e - at);
        at = e + 1;
        static const std::regex re(R"(^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}\] \[([a-z]+)\] )");
        std::smatch m;
        if (std::regex_search(line, m, re)) {
            seen.insert(m[1].str());
        }
    }
    for (auto& l : seen) {
        c.check(rank(l) >= rank(lowest), [&] { return std::format("lines of level {} at --log-level {}", l, k.level); });
    }
    for (auto& l : {"trace", "debug", "info"}) {
        c.check(rank(l) < rank(lowest) || seen.contains(l) || (l != std::string("info") && received == 0), [&] { return std::format("no lines of level {} at --log-level {}", l, k.level); });
    }
    c.check(k.level != "off" || out.empty(), "output although logging is off: " + quote(out));
    if (!k.log.empty()) {
        std::ifstream in(k.log, std::ios::binary);
        c.check(in.good(), "there is no access log");
        std::vector<std::string> lines;
        for (std::string s; std::getline(in, s);) {
            lines.push_back(s);
        }
        c.check(lines.size() == logged.size(), [&] { return std::format("{} lines in the access log, {} requests", lines.size(), logged.size()); });
        for (size_t i = 0; i < lines.size(); i++) {
            auto& l = logged[i];
            const std::string& s = lines[i];
            const std::string mid = std::format(" {} {} \"", l.status, l.size);
            c.check(s.starts_with(ip + " - - [") && s.find("\"" + l.method + " ") != std::string::npos && s.find(mid) != std::string::npos,
                    [&] { return std::format("line {} of the access log is {}, of {} {} {} {}", i, quote(s), l.method, l.path, l.status, l.size); });
            if (l.path.find(' ') == std::string::npos) {
                c.check(s.find("\"" + l.method + " " + l.path + " HTTP/2\"") != std::string::npos, [&] { return std::format("line {} of the access log is {}, of {} {}", i, quote(s), l.method, l.path); });
            }
        }
        if (logged.size() > 1) {
            c.label("access log");
        }
    }
    c.label(k.tls ? "TLS" : "cleartext");
    (void)asked;
    if (received >= 2 && features >= 1) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    Property p{.id = "C30",
               .rule = "the real program with a random command line and environment, up to four raw HTTP/2 clients "
                       "and curl over loopback, ended by a signal; or a command line that must be refused; "
                       "non-trivial = two requests answered, one of them by a selected feature",
               .fn = prop};
    p.quick_cases = 3000;
    p.thorough_cases = 10000000;
    p.case_cpu_s = 120;
    p.quick_max_s = 120;
    p.required_labels = {"TLS", "cleartext", "file", "test route", "page", "status page", "custom 404", "HEAD of a file", "access log", "access log of the running program", "curl",
                         "SIGINT", "SIGTERM", "ended while busy", "out of the mapping", "level in another case", "certificate by environment",
                         "option over environment", "help or version", "refused: port", "refused: level", "refused: certificate",
                         "refused: half", "refused: unknown", "refused: occupied"};
    return run_main(argc, argv, p);
}
