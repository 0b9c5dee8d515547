// C36: the program ends when its output has lost its reader, and never because of a client.
#include "program.h"

using namespace prog;

namespace {
// what standard output or error leads to, and the process that reads it
struct Sink {
    enum Kind { File, Pipe, Socket } kind = File;
    int write_end = -1, read_end = -1;
    pid_t reader = -1;
    bool broken = false;
    explicit Sink(Kind k) : kind(k) {
        int p[2];
        if (k == Pipe && pipe2(p, O_CLOEXEC) == 0) {
            read_end = p[0];
            write_end = p[1];
        } else if (k == Socket && socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p) == 0) {
            read_end = p[0];
            write_end = p[1];
        }
    }
    bool can_break() const {
        return kind != File && !broken;
    }
    // to be called once the program has been started
    void read() {
        if (kind == File) {
            return;
        }
        const pid_t parent = getpid();
        reader = fork();
        if (reader == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) {
                _exit(0);
            }
            dup2(read_end, 0);
            close_range(1, ~0u, 0);
            static char buf[65536];
            for (ssize_t n = 1; n > 0;) {
                n = ::read(0, buf, sizeof buf);
            }
            _exit(0);
        }
        close(read_end);
        close(write_end);
        read_end = write_end = -1;
    }
    void break_it() {
        end_reader();
        broken = true;
    }
    void end_reader() {
        if (reader > 0) {
            kill(reader, SIGKILL);
            waitpid(reader, nullptr, 0);
            reader = -1;
        }
    }
    ~Sink() {
        end_reader();
        for (int fd : {read_end, write_end}) {
            if (fd >= 0) {
                close(fd);
            }
        }
    }
};
}  // namespace

static void prop(Case& c) {
    quiet_logs();
    const auto& f = Files::get();
    Port port(false);
    c.check(port.number != 0, "harness: no port is free");
    const bool tls = c.flip();
    const size_t level = c.weighted({4, 2, 1, 1, 1});
    const std::string levels[] = {"info", "debug", "trace", "warn", "off"};
    std::vector<std::string> args{"-p", std::to_string(port.number), "-l", levels[level], "--under-test"};
    std::vector<std::string> env{"PATH=/usr/bin:/bin"};
    if (tls) {
        env.push_back("ION_TLS_CERT_PATH=" + f.good_cert);
        env.push_back("ION_TLS_KEY_PATH=" + f.good_key);
    } else {
        args.push_back("--cleartext");
    }
    auto kind = [&] { return static_cast<Sink::Kind>(c.weighted({1, 3, 2})); };
    auto out = std::make_shared<Sink>(kind());
    const bool joined = out->kind != Sink::File && c.chance(1, 3);  // 2>&1
    auto err = joined ? out : std::make_shared<Sink>(kind());
    Program prog;
    prog.start(args, env, out->write_end, err->write_end);
    out->read();
    if (!joined) {
        err->read();
    }
    c.note([&] { return std::format("level {}, tls {}, out {}, err {}, joined {}", levels[level], tls, int(out->kind), int(err->kind), joined); });
    int first = -1;
    const auto until = sc::now() + PATIENCE;
    while ((first = dial(port.number)) < 0) {
        c.check(!prog.ended(), [&] { return "the program " + prog.outcome() + " instead of serving"; });
        c.check(sc::now() < until, "the program does not serve");
        usleep(500);
    }
    bool may_end = false;   // an output is broken
    bool must_end = false;  // and something has been written to it
    std::vector<std::unique_ptr<Net>> idle;
    auto connect = [&]() -> std::unique_ptr<Net> {
        const int fd = first >= 0 ? first : dial(port.number);
        first = -1;
        if (fd < 0) {
            c.check(may_end, "the server accepts no more connections");
            return nullptr;
        }
        if (out->broken && level <= 2) {  // "client connected"
            must_end = true;
        }
        return std::make_unique<Net>(c, fd, tls);
    };
    auto preface = [&](Net& n) {
        Bytes b;
        h2::append(b, h2::PREFACE);
        h2::append(b, h2::frame(h2::SETTINGS, 0, 0, {}));
        n.out.announce({});
        return b;
    };
    auto answered = [&](Net& n, const std::string& path, bool fresh) {
        const size_t have = n.out.responses.size();
        Bytes b = fresh ? preface(n) : Bytes{};
        h2::append(b, n.request("GET", path, ""));
        n.send(b);
        const bool ok = n.until([&] { return n.out.responses.size() > have && n.out.responses.back().ended; });
        if (!may_end) {
            c.check(ok, [&] { return prog.ended() ? "the program " + prog.outcome() + " although its output is read" : "not answered"; });
        }
        return ok;
    };
    size_t resets = 0;
    auto act = [&] {
        switch (c.weighted({4, 3, 4, 2, 1, 2})) {
            case 0: {  // a request
                auto n = connect();
                if (n && (n->secure() || !may_end)) {
                    c.check(n->secure(), "the TLS handshake does not complete");
                    answered(*n, c.pick<std::string>({"/_tests/ok", "/none", "/_tests/medium_body"}), true);
                    if (c.flip()) {
                        idle.push_back(std::move(n));
                    }
                }
                break;
            }
            case 1: {  // leaves at once, or sends nonsense
                auto n = connect();
                if (n && c.flip()) {
                    n->flush(c.bytes(1 + c.len(100)));
                    c.label("nonsense");
                }
                break;
            }
            case 2: {  // leaves without having read a large response
                auto n = connect();
                if (!n || !n->secure()) {
                    break;
                }
                Bytes b = preface(*n);
                for (size_t i = 0, k = 1 + c.u(4); i < k; i++) {
                    h2::append(b, n->request("GET", "/_tests/large_body", ""));
                }
                n->send(b);
                if (c.flip()) {
                    n->pump(c.flip() ? 1 : 50);
                } else {
                    usleep(static_cast<useconds_t>(c.u(30)) * 1000);
                }
                if (c.flip()) {
                    linger l{1, 0};
                    setsockopt(n->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                }
                resets++;
                c.label("leaves a response unread");
                break;
            }
            case 3:  // goes on later
                if (!idle.empty()) {
                    const size_t i = c.u(idle.size() - 1);
                    if (answered(*idle[i], "/_tests/ok", false)) {
                        c.label("goes on later");
                    }
                    if (c.flip()) {
                        idle.erase(idle.begin() + static_cast<long>(i));
                    }
                }
                break;
            case 4:  // a SIGPIPE that means nothing
                if (!prog.ended()) {
                    kill(prog.pid, SIGPIPE);
                    c.label("unfounded SIGPIPE");
                }
                break;
            default: {  // leaves in the middle of the handshake
                auto n = connect();
                if (n) {
                    n->pump(c.flip() ? 0 : 5);
                    if (c.flip()) {
                        shutdown(n->fd, SHUT_RDWR);
                    }
                }
            }
        }
        if (!may_end) {
            c.check(!prog.ended(), [&] { return "the program " + prog.outcome() + " although its output is read"; });
        }
    };
    for (size_t i = 0, n = c.len(6); i < n; i++) {
        act();
    }
    const size_t which = c.weighted({2, 2, 1, 1});  // output, error, both, none
    if ((which == 0 || which == 2) && out->can_break()) {
        out->break_it();
        may_end = true;
        c.label(out->kind == Sink::Pipe ? "output: pipe" : "output: socket");
    }
    if ((which == 1 || which == 2) && err->can_break()) {
        err->break_it();
        may_end = true;
        c.label(joined ? "output and error in one" : "error");
    }
    for (size_t i = 0, n = 1 + c.len(6); i < n; i++) {
        act();
    }
    if (may_end && tls && err->broken && level <= 2 && !must_end && c.flip()) {
        // the TLS library's complaints go to standard error
        auto n = connect();
        if (n) {
            n->flush(Bytes(100, 'x'));
            n->until([&] { return n->eof; });
        }
    }
    if (must_end) {
        c.check(prog.wait_end(8s), "the program goes on although nothing reads its output any more");
        const bool fine = WIFEXITED(prog.status) ? WEXITSTATUS(prog.status) == 0 : WTERMSIG(prog.status) == SIGPIPE;
        c.check(fine, [&] { return "the program " + prog.outcome(); });
        c.nontrivial();
        return;
    }
    if (!may_end) {
        auto n = connect();
        c.check(n->secure(), "the TLS handshake does not complete");
        answered(*n, "/_tests/ok", true);
        kill(prog.pid, c.flip() ? SIGTERM : SIGINT);
        c.check(prog.wait_end(), "the program goes on although it is to end");
        c.check(WIFEXITED(prog.status) && WEXITSTATUS(prog.status) == 0, [&] { return "the program " + prog.outcome(); });
        if (resets > 0) {
            c.nontrivial();
            c.label("served to the end");
        }
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    Property p{.id = "C36",
               .rule = "the real program with its output and error in files, pipes or sockets whose reader is ended at any "
                       "moment of a history of clients that are served, leave responses unread, reset or send nonsense; "
                       "non-trivial = the output broke and was written to, or it did not and a client left a response unread",
               .fn = prop};
    p.quick_cases = 1500;
    p.thorough_cases = 10000000;
    p.case_cpu_s = 120;
    p.quick_max_s = 120;
    p.required_labels = {"output: pipe", "output: socket", "error", "output and error in one", "served to the end",
                         "leaves a response unread", "unfounded SIGPIPE", "nonsense", "goes on later"};
    return run_main(argc, argv, p);
}
