// The server program as a child process, ports for it, and a raw HTTP/2 client over loopback.
#pragma once
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstring>
#include <filesystem>
#include <fstream>

#include "conn.h"
#include "tls.h"

namespace prog {
using namespace pbt;
namespace fs = std::filesystem;
using sc = std::chrono::steady_clock;
using namespace std::chrono_literals;

// what takes this long is taken to never happen
inline constexpr auto PATIENCE = 20s;

inline std::string dir() {
    static const std::string d = [] {
        const std::string s = std::string(getenv("ION_SCRATCH")) + "/run" + std::to_string(getpid());
        fs::create_directories(s);
        return s;
    }();
    return d;
}

// ------------------------------------------------------------------ ports
// below those the system hands out; nobody else here takes one that is reserved
struct Port {
    int lock = -1, holder = -1;
    uint16_t number = 0;
    static bool reserve(uint16_t n, int& fd) {
        fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        const std::string name = std::format("ion-verif-port-{}", n);
        memcpy(a.sun_path + 1, name.data(), name.size());
        if (bind(fd, reinterpret_cast<sockaddr*>(&a), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + name.size())) != 0) {
            close(fd);
            fd = -1;
            return false;
        }
        return true;
    }
    static int try_bind(uint16_t n) {
        const int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        const int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(n);
        if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
            close(fd);
            return -1;
        }
        return fd;
    }
    bool take(uint16_t n) {
        int fd = -1;
        if (!reserve(n, fd)) {
            return false;
        }
        const int b = try_bind(n);
        if (b < 0) {
            close(fd);
            return false;
        }
        close(b);
        lock = fd;
        number = n;
        return true;
    }
    explicit Port(bool wants_default, uint16_t wanted = 0) {
        if (wants_default && take(8443)) {
            return;
        }
        if (wanted && take(wanted)) {
            return;
        }
        static unsigned next = static_cast<unsigned>(getpid()) * 131u;
        for (int i = 0; i < 20000; i++) {
            if (take(static_cast<uint16_t>(10000 + next++ % 20000))) {
                return;
            }
        }
    }
    // somebody else listens there
    bool occupy() {
        holder = try_bind(number);
        return holder >= 0 && listen(holder, 5) == 0;
    }
    ~Port() {
        if (holder >= 0) {
            close(holder);
        }
        if (lock >= 0) {
            close(lock);
        }
    }
};

// ------------------------------------------------------------------ the program
struct Program {
    pid_t pid = -1;
    int status = 0;
    bool over = false;
    std::string out;
    // standard output and error go to a file, or to what is given for them
    void start(const std::vector<std::string>& args, const std::vector<std::string>& env, int to_out = -1, int to_err = -1) {
        static size_t n = 0;
        out = dir() + "/out" + std::to_string(n++);
        const std::string exe = getenv("ION_AUX_SERVER");
        std::vector<std::string> all{exe};
        all.insert(all.end(), args.begin(), args.end());
        std::vector<char*> av, ev;
        for (auto& a : all) {
            av.push_back(const_cast<char*>(a.c_str()));
        }
        av.push_back(nullptr);
        for (auto& e : env) {
            ev.push_back(const_cast<char*>(e.c_str()));
        }
        ev.push_back(nullptr);
        const pid_t parent = getpid();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) {
                _exit(99);
            }
            const int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), in = open("/dev/null", O_RDONLY);
            dup2(in, 0);
            dup2(to_out < 0 ? o : to_out, 1);
            dup2(to_err < 0 ? o : to_err, 2);
            signal(SIGPIPE, SIG_DFL);
            signal(SIGINT, SIG_DFL);
            signal(SIGTERM, SIG_DFL);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            close_range(3, ~0u, 0);
            (void)!chdir(dir().c_str());
            execve(exe.c_str(), av.data(), ev.data());
            _exit(98);
        }
    }
    bool ended() {
        if (!over && waitpid(pid, &status, WNOHANG) == pid) {
            over = true;
        }
        return over;
    }
    bool wait_end(sc::duration patience = PATIENCE) {
        const auto until = sc::now() + patience;
        while (!ended()) {
            if (sc::now() > until) {
                return false;
            }
            usleep(500);
        }
        return true;
    }
    std::string outcome() const {
        return WIFEXITED(status) ? std::format("exits with {}", WEXITSTATUS(status)) : std::format("is ended by signal {}", WTERMSIG(status));
    }
    std::string output() const {
        std::ifstream f(out, std::ios::binary);
        return {std::istreambuf_iterator<char>(f), {}};
    }
    ~Program() {
        if (pid > 0 && !over) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
        }
        if (!out.empty()) {
            unlink(out.c_str());
        }
    }
};

inline int dial(uint16_t port) {
    const int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
        close(fd);
        return -1;
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    return fd;
}

struct Net {
    Case& c;
    int fd = -1;
    std::unique_ptr<tls::Client> t;
    conn::Output out{true};
    ref::Encoder enc{4096, 4096};
    uint32_t stream = 1;
    bool eof = false;
    Net(Case& cc, int socket, bool over_tls) : c(cc), fd(socket) {
        if (over_tls) {
            tls::Client::Options o;
            o.version = c.pick<int>({0, TLS1_3_VERSION, TLS1_2_VERSION});
            t = std::make_unique<tls::Client>(o);
            t->pump();
            flush(t->take());
        }
    }
    ~Net() {
        if (fd >= 0) {
            close(fd);
        }
    }
    void flush(const Bytes& b) {
        size_t at = 0;
        const auto until = sc::now() + PATIENCE;
        while (at < b.size() && !eof) {
            const auto n = ::send(fd, b.data() + at, b.size() - at, MSG_NOSIGNAL);
            if (n > 0) {
                at += static_cast<size_t>(n);
            } else if (errno == EAGAIN && sc::now() < until) {
                pump(5);
            } else {
                eof = true;
            }
        }
    }
    void pump(int ms) {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, ms) <= 0) {
            return;
        }
        static uint8_t buf[262144];
        const auto n = recv(fd, buf, sizeof buf, 0);
        if (n <= 0) {
            eof |= n == 0 || errno != EAGAIN;
            return;
        }
        if (t) {
            t->receive({buf, static_cast<size_t>(n)});
            out.feed(t->received);
            t->received.clear();
            const Bytes b = t->take();
            if (!b.empty()) {
                flush(b);
            }
        } else {
            out.feed({buf, static_cast<size_t>(n)});
        }
    }
    template <class F>
    bool until(F&& f) {
        const auto end = sc::now() + PATIENCE;
        while (!f()) {
            if (eof || (t && t->failed) || sc::now() > end) {
                return f();
            }
            pump(50);
        }
        return true;
    }
    bool secure() {
        return !t || until([&] { return t->connected; });
    }
    void send(const Bytes& b) {
        if (!t) {
            flush(b);
            return;
        }
        t->send(b);
        flush(t->take());
    }
    Bytes request(const std::string& method, const std::string& path, const std::string& agent) {
        ref::Fields f{{":method", method}, {":scheme", t ? "https" : "http"}, {":path", path}, {":authority", "localhost"}};
        if (!agent.empty()) {
            f.push_back({"user-agent", agent});
        }
        const Bytes b = enc.block(c, f);
        const Bytes r = h2::frame(h2::HEADERS, h2::END_HEADERS | h2::END_STREAM, stream, b);
        stream += 2;
        return r;
    }
};

// ------------------------------------------------------------------ files
struct Files {
    std::string root, page404, good_cert, good_key, other_key, junk;
    std::map<std::string, std::string> content;  // relative path -> content
    static const Files& get() {
        static const Files f = [] {
            Files f;
            f.root = dir() + "/www root";
            fs::create_directories(f.root + "/sub/deep");
            std::string big;
            for (size_t i = 0; big.size() < 300000; i++) {
                big += std::to_string(i) + " ";
            }
            f.content = {{"index.html", "<p>index</p>"}, {"a.txt", "text a"}, {"sub/style.css", "p{}"}, {"sub/deep/data.json", "{}"},
                         {"big.bin", big}, {"sub/index.html", "sub index"}, {"empty.txt", ""}};
            for (auto& [n, s] : f.content) {
                tls::put_file(f.root + "/" + n, s);
            }
            tls::put_file(dir() + "/secret.txt", "SECRET");
            f.page404 = dir() + "/nothing here.html";
            tls::put_file(f.page404, "<h1>nothing here</h1>");
            f.good_cert = tls::server_pair().cert;
            f.good_key = tls::server_pair().key;
            f.other_key = tls::make_pair("other", "ec").key;
            f.junk = dir() + "/junk.pem";
            tls::put_file(f.junk, "-----BEGIN CERTIFICATE-----\nnonsense\n-----END CERTIFICATE-----\n");
            return f;
        }();
        return f;
    }
};
}  // namespace prog
