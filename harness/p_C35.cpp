// C35: TLS session secrets are written to SSLKEYLOGFILE, completely, and nowhere else.
#include <regex>

#include "program.h"

using namespace prog;

static std::string slurp(const std::string& name) {
    std::ifstream f(name, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}
// every secret of every client of this process, as the client sees it: label, client random, secret
static std::vector<std::string> client_lines;

static void prop(Case& c) {
    quiet_logs();
    const auto& f = Files::get();
    client_lines.clear();
    Port port(false);
    c.check(port.number != 0, "harness: no port is free");
    // a directory of its own, which must only ever hold what is asked for
    const std::string home = dir() + "/keys";
    fs::remove_all(home);
    fs::create_directories(home + "/dir");
    const std::string file = home + "/" + c.pick<std::string>({"keys.log", "with space.log", "k"});
    const auto kind = c.weighted({4, 3, 1, 1, 3});
    std::string before;
    std::vector<std::string> env{"PATH=/usr/bin:/bin"};
    switch (kind) {
        case 0:
            env.push_back("SSLKEYLOGFILE=" + file);
            c.label("new file");
            break;
        case 1: {
            for (size_t i = 0, n = c.len(5); i < n; i++) {
                before += c.str(c.len(80), "CLIENT_RANDOM 0123abcdef#") + "\n";
            }
            tls::put_file(file, before);
            env.push_back("SSLKEYLOGFILE=" + file);
            c.label("existing file");
            break;
        }
        case 2:
            env.push_back("SSLKEYLOGFILE=" + home + "/dir");
            c.label("not writable");
            break;
        case 3:
            env.push_back("SSLKEYLOGFILE=");
            c.label("empty name");
            break;
        default:
            c.label("not asked for");
    }
    const bool logged = kind <= 1;
    const std::string level = c.pick<std::string>({"trace", "debug", "info"});
    std::vector<std::string> args{"-p", std::to_string(port.number), "-l", level, "--under-test"};
    env.push_back("ION_TLS_CERT_PATH=" + f.good_cert);
    env.push_back("ION_TLS_KEY_PATH=" + f.good_key);
    Program prog;
    prog.start(args, env);
    int first = -1;
    const auto until = sc::now() + PATIENCE;
    while ((first = dial(port.number)) < 0) {
        c.check(!prog.ended(), [&] { return "the program " + prog.outcome() + " instead of serving: " + quote(prog.output(), 600); });
        c.check(sc::now() < until, "the program does not serve");
        usleep(500);
    }
    struct Peer {
        std::unique_ptr<Net> net;
        bool whole;
    };
    std::vector<Peer> peers;
    size_t whole = 0, versions = 0;
    for (size_t i = 0, n = 1 + c.len(6); i < n; i++) {
        const int fd = i == 0 ? first : dial(port.number);
        c.check(fd >= 0, "the server accepts no more connections");
        if (c.chance(1, 6)) {  // no TLS at all
            Net plain(c, fd, false);
            plain.flush(c.bytes(c.len(300)));
            c.label("not TLS");
            continue;
        }
        auto& p = peers.emplace_back(std::make_unique<Net>(c, fd, true), false);
        if (c.chance(1, 5)) {  // leaves once the first flight is sent
            p.net.reset();
            c.label("leaves during the handshake");
            continue;
        }
        c.check(p.net->secure(), "the TLS handshake does not complete");
        versions |= SSL_version(p.net->t->raw()) == TLS1_2_VERSION ? 1 : 2;
        // whoever is answered has certainly completed the handshake at both ends
        Bytes b;
        h2::append(b, h2::PREFACE);
        h2::append(b, h2::frame(h2::SETTINGS, 0, 0, {}));
        p.net->out.announce({});
        h2::append(b, p.net->request("GET", "/_tests/ok", ""));
        p.net->send(b);
        c.check(p.net->until([&] { return !p.net->out.responses.empty() && p.net->out.responses[0].ended; }), "not answered");
        p.whole = true;
        whole++;
        if (logged && c.flip()) {  // not only once the program has ended
            const std::string now = slurp(file);
            for (auto& l : client_lines) {
                c.check(now.find(l + "\n") != std::string::npos, [&] { return std::format("a client has been answered, but its secret is missing from the file: {} (which holds {} octets)", l, now.size()); });
            }
            c.label("looked at while running");
        }
        if (c.flip()) {
            p.net->t->close_notify();
            p.net->flush(p.net->t->take());
        }
        if (c.chance(1, 3)) {
            p.net.reset();
        }
    }
    // all clients' secrets, by client random
    std::map<std::string, std::vector<std::string>> randoms;
    for (auto& l : client_lines) {
        const size_t a = l.find(' '), e = l.find(' ', a + 1);
        c.check(a != std::string::npos && e != std::string::npos, "harness: odd line " + l);
        randoms[l.substr(a + 1, e - a - 1)].push_back(l);
    }
    const int how = c.pick<int>({SIGTERM, SIGINT, SIGKILL});
    kill(prog.pid, how);
    c.check(prog.wait_end(), "the program goes on although it is to end");
    c.check(how == SIGKILL || (WIFEXITED(prog.status) && WEXITSTATUS(prog.status) == 0), "the program " + prog.outcome());
    // ---------------- the file
    if (logged && (whole > 0 || kind == 1)) {
        const std::string all = slurp(file);
        c.check(all.starts_with(before), [&] { return "what the file held is gone: " + quote(all, 300); });
        const std::string mine = all.substr(before.size());
        c.check(mine.empty() || mine.back() == '\n', "the last line of the file is not complete");
        static const std::regex form("^[A-Z][A-Z0-9_]+ [0-9a-f]{64} [0-9a-f]{32,128}$");
        std::map<std::string, size_t> got;
        for (size_t at = 0; at < mine.size();) {
            const size_t e = mine.find('\n', at);
            const std::string line = mine.substr(at, e - at);
            at = e + 1;
            c.check(std::regex_match(line, form), [&] { return "not a line of a key log: " + quote(line, 300); });
            c.check(++got[line] == 1, [&] { return "written twice: " + line; });
        }
        for (auto& l : client_lines) {
            c.check(got.contains(l), [&] { return std::format("a secret is missing from the file: {} (it holds {} lines)", l, got.size()); });
        }
        c.note([&] { return std::format("{} lines for {} secrets of {} clients", got.size(), client_lines.size(), whole); });
    }
    // ---------------- and nowhere else
    for (auto& e : fs::directory_iterator(home)) {
        const std::string name = e.path();
        c.check(name == home + "/dir" || (logged && name == file), [&] { return "a file has appeared: " + quote(name); });
    }
    c.check(fs::is_empty(home + "/dir"), "a file has appeared in a directory");
    const std::string out = prog.output();
    for (auto& l : client_lines) {
        c.check(out.find(l.substr(l.rfind(' ') + 1)) == std::string::npos, [&] { return "a session secret is in the log: " + l; });
    }
    static const std::string key = [&] {  // the longest line of the private key
        std::ifstream in(f.good_key);
        std::string best;
        for (std::string l; std::getline(in, l);) {
            best = l.size() > best.size() && l[0] != '-' ? l : best;
        }
        return best;
    }();
    c.check(out.find(key) == std::string::npos, "the private key is in the log");
    if (whole >= 2) {
        c.nontrivial();
        if (versions == 3) {
            c.label("both versions");
        }
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    tls::on_context = [](SSL_CTX* ctx) {
        SSL_CTX_set_keylog_callback(ctx, [](const SSL*, const char* l) { client_lines.push_back(l); });
    };
    Property p{.id = "C35",
               .rule = "the real program with SSLKEYLOGFILE set to a new or existing file, to a directory, to nothing or "
                       "not at all; up to seven TLS 1.2 and 1.3 clients that complete, leave or send something else; "
                       "non-trivial = two handshakes completed",
               .fn = prop};
    p.quick_cases = 2500;
    p.thorough_cases = 10000000;
    p.case_cpu_s = 120;
    p.quick_max_s = 120;
    p.required_labels = {"new file", "existing file", "looked at while running", "not writable", "empty name", "not asked for", "both versions", "not TLS", "leaves during the handshake"};
    return run_main(argc, argv, p);
}
