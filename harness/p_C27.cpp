// C27: both pollers report exactly the readiness of the descriptors registered.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>

#include <chrono>
#include <thread>

#include "ion_util.h"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"
#include "pollers/poller.h"

using namespace pbt;
using ion::PollError;
using ion::PollEventType;

struct Fd {
    int fd = -1;
    int peer = -1;  // index into fds, or -1
    enum Kind { Socket, PipeRead, PipeWrite, Event } kind = Socket;
    bool open = true;
    int interest = -1;  // -1: not registered
};

static std::string show(int ev) {
    if (ev < 0) {
        return "unregistered";
    }
    std::string s;
    for (auto [b, n] : {std::pair{1, "read"}, {2, "write"}, {4, "hangup"}, {8, "error"}}) {
        if (ev & b) {
            s += s.empty() ? n : std::string("|") + n;
        }
    }
    return s.empty() ? "none" : s;
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    signal(SIGPIPE, SIG_IGN);
    std::vector<Fd> fds;
    struct Closer {
        std::vector<Fd>& f;
        ~Closer() {
            for (auto& x : f) {
                if (x.open) {
                    close(x.fd);
                }
            }
        }
    } closer{fds};
    std::vector<std::pair<std::string, std::unique_ptr<ion::Poller>>> pollers;
    pollers.emplace_back("epoll", std::make_unique<ion::EPollPoller>());
    pollers.emplace_back("poll", std::make_unique<ion::PollPoller>());
    pollers.emplace_back("default", ion::Poller::create());
    size_t reported = 0, changes = 0, reused = 0;
    std::set<int> ever_closed;
    auto place = [&](int fd) {  // sometimes at a higher number
        if (c.chance(1, 8)) {
            const int n = fcntl(fd, F_DUPFD_CLOEXEC, (c.chance(1, 3) ? c.pick<int>({1015, 4090, 16378, 32762, 65530}) : 60) + static_cast<int>(c.u(300)));
            if (n >= 0) {
                close(fd);
                fd = n;
            }
        }
        reused += ever_closed.contains(fd);
        return fd;
    };
    auto create = [&] {
        const auto at = static_cast<int>(fds.size());
        switch (c.weighted({5, 2, 1})) {
            case 0: {
                int sv[2];
                c.check(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv) == 0, "harness: socketpair");
                if (c.flip()) {
                    const int small = 2048;
                    setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
                    setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
                }
                fds.push_back({place(sv[0]), at + 1, Fd::Socket});
                fds.push_back({place(sv[1]), at, Fd::Socket});
                break;
            }
            case 1: {
                int p[2];
                c.check(pipe2(p, O_NONBLOCK | O_CLOEXEC) == 0, "harness: pipe");
                fds.push_back({place(p[0]), at + 1, Fd::PipeRead});
                fds.push_back({place(p[1]), at, Fd::PipeWrite});
                break;
            }
            default: {
                const int e = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
                c.check(e >= 0, "harness: eventfd");
                fds.push_back({place(e), -1, Fd::Event});
            }
        }
    };
    auto live = [&]() -> Fd* {
        std::vector<size_t> v;
        for (size_t i = 0; i < fds.size(); i++) {
            if (fds[i].open) {
                v.push_back(i);
            }
        }
        return v.empty() ? nullptr : &fds[v[c.u(v.size() - 1)]];
    };
    auto set = [&](Fd& f, int ev) {
        for (auto& [n, p] : pollers) {
            p->set(f.fd, static_cast<PollEventType>(ev));
        }
        c.note([&] { return std::format("set {} {} (was {})", f.fd, show(ev), show(f.interest)); });
        f.interest = ev;
        changes++;
    };
    auto remove = [&](Fd& f) {
        for (auto& [n, p] : pollers) {
            p->remove(f.fd);
        }
        c.note([&] { return std::format("remove {}", f.fd); });
        f.interest = -1;
        changes++;
    };
    auto shut = [&](Fd& f) {
        c.note([&] { return std::format("close {}", f.fd); });
        ever_closed.insert(f.fd);
        const bool first = f.interest >= 0 && c.flip();
        if (first) {
            remove(f);
        }
        close(f.fd);
        f.open = false;
        if (f.interest >= 0) {
            remove(f);  // the server closes first
            c.label("removed after closing");
        }
    };
    // poll(2) on what is registered, each for what it is registered for
    auto truth = [&] {
        std::map<int, int> t;
        for (auto& f : fds) {
            if (!f.open || f.interest < 0) {
                continue;
            }
            pollfd p{f.fd, static_cast<short>((f.interest & 1 ? POLLIN : 0) | (f.interest & 2 ? POLLOUT : 0)), 0};
            poll(&p, 1, 0);
            const int ev = (p.revents & POLLIN ? 1 : 0) | (p.revents & POLLOUT ? 2 : 0) | (p.revents & POLLHUP ? 4 : 0) | (p.revents & POLLERR ? 8 : 0);
            if (ev) {
                t[f.fd] = ev;
            }
        }
        return t;
    };
    auto check_poll = [&](std::chrono::milliseconds wait) {
        const auto want = truth();
        for (auto& [name, p] : pollers) {
            std::map<int, int> got;
            // a poller may report a part at a time
            for (size_t round = 0; round < want.size() / 32 + 2; round++) {
                const auto begin = std::chrono::steady_clock::now();
                const auto r = p->poll(want.empty() ? wait : std::chrono::milliseconds(c.chance(1, 20) ? 1000 : 0));
                const auto took = std::chrono::steady_clock::now() - begin;
                if (!r) {
                    c.check(r.error() == PollError::Timeout, [&] { return std::format("{}: error {} from poll", name, static_cast<int>(r.error())); });
                    c.check(want.empty(), [&] { return std::format("{}: timeout although {} is ready ({})", name, want.begin()->first, show(want.begin()->second)); });
                    c.check(took >= wait, [&] { return std::format("{}: timeout before {} ms are over", name, wait.count()); });
                    break;
                }
                size_t n = 0;
                for (auto& e : *r) {
                    const int ev = static_cast<int>(e.events);
                    if (ev == 0) {
                        continue;  // nothing reported
                    }
                    n++;
                    const auto it = want.find(e.fd);
                    c.check(it != want.end(), [&] {
                        std::string st = "unknown";
                        for (auto& f : fds) {
                            if (f.fd == e.fd && f.open) {
                                st = show(f.interest);
                            }
                        }
                        return std::format("{}: {} reported for {}, which is {} and not ready", name, show(ev), e.fd, st);
                    });
                    c.check(ev == it->second, [&] { return std::format("{}: {} reported for {}, it is {}", name, show(ev), e.fd, show(it->second)); });
                    got[e.fd] = ev;
                }
                c.check(n > 0 || !want.empty(), [&] { return name + ": events although nothing is ready"; });
                reported += n;
                if (got.size() == want.size()) {
                    break;
                }
            }
            for (auto& [fd, ev] : want) {
                c.check(got.contains(fd), [&] { return std::format("{}: {} not reported, it is {}", name, fd, show(ev)); });
            }
        }
        if (want.size() > 64) {
            c.label("more than 64 ready");
        }
        for (auto& [fd, ev] : want) {
            if (ev & 4) {
                c.label("hangup");
            }
            if (ev & 8) {
                c.label("error");
            }
        }
        c.label(want.empty() ? "nothing ready" : "some ready");
    };
    const bool many = c.chance(1, 40);
    if (many) {
        for (size_t i = 0, n = 30 + c.u(70); i < n; i++) {
            create();
        }
        for (auto& f : fds) {
            if (!c.chance(1, 10)) {
                set(f, c.pick<int>({1, 2, 3, 0, 2}));
            }
        }
    }
    const size_t ops = 4 + c.len(80);
    for (size_t i = 0; i < ops; i++) {
        Fd* f = live();
        switch (f ? c.weighted({2, 6, 2, 2, 4, 3, 2, 1, 6}) : 0) {
            case 0:
                if (fds.size() < 300) {
                    create();
                }
                break;
            case 1:
                set(*f, c.weighted({1, 4, 3, 4}) | (c.chance(1, 10) ? 4 : 0) | (c.chance(1, 10) ? 8 : 0));
                break;
            case 2:
                remove(*f);
                break;
            case 3:
                shut(*f);
                break;
            case 4: {  // something to read at the other end
                const uint64_t one = 1;
                const ssize_t n = write(f->fd, &one, 8);
                c.note([&] { return std::format("write to {}: {}", f->fd, n); });
                break;
            }
            case 5: {  // fill
                char buf[4096] = {};
                if (f->kind != Fd::Event) {
                    while (write(f->fd, buf, sizeof buf) > 0) {
                    }
                } else {
                    const uint64_t most = UINT64_MAX - 1;
                    (void)!write(f->fd, &most, 8);
                }
                c.note([&] { return std::format("fill {}", f->fd); });
                break;
            }
            case 6: {  // drain
                char buf[65536];
                while (read(f->fd, buf, sizeof buf) > 0) {
                }
                c.note([&] { return std::format("drain {}", f->fd); });
                break;
            }
            case 7:
                if (f->kind == Fd::Socket) {
                    const int how = c.pick<int>({SHUT_RD, SHUT_WR, SHUT_RDWR});
                    shutdown(f->fd, how);
                    c.note([&] { return std::format("shutdown {} {}", f->fd, how); });
                }
                break;
            default:
                check_poll(std::chrono::milliseconds(c.chance(1, 60) ? 1 + c.u(2) : 0));
        }
    }
    check_poll(std::chrono::milliseconds(0));
    if (c.chance(1, 400)) {
        // ready only while waiting: reported without waiting for the whole timeout
        int p[2];
        c.check(pipe2(p, O_NONBLOCK | O_CLOEXEC) == 0, "harness: pipe");
        for (auto& [name, poller] : pollers) {
            for (auto& f : fds) {
                if (f.open && f.interest >= 0) {
                    poller->remove(f.fd);
                }
            }
            poller->set(p[0], PollEventType::Read);
            std::thread t([&] {
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                (void)!write(p[1], "x", 1);
            });
            const auto r = poller->poll(std::chrono::seconds(30));
            t.join();
            const bool ok = r && r->size() == 1 && (*r)[0].fd == p[0] && (*r)[0].events == PollEventType::Read;
            c.check(ok, [&] { return name + ": readiness while waiting is not reported"; });
            char b;
            (void)!read(p[0], &b, 1);
            poller->remove(p[0]);
        }
        close(p[0]);
        close(p[1]);
        c.label("ready while waiting");
    }
    if (reused) {
        c.label("descriptor number used again");
    }
    if (reported >= 3 && changes >= 4) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    rlimit files{};
    if (getrlimit(RLIMIT_NOFILE, &files) == 0) {
        files.rlim_cur = std::min<rlim_t>(files.rlim_max, 70000);
        setrlimit(RLIMIT_NOFILE, &files);
    }
    Property p{.id = "C27",
               .rule = "operation histories (create, register, change, remove, close, write, fill, drain, "
                       "shut down, poll) over sockets, pipes and eventfds, up to 200 at once, applied to both "
                       "implementations; every poll is compared with poll(2) on each descriptor; "
                       "non-trivial = at least four changes of registration and three events reported",
               .fn = prop};
    p.quick_cases = 250000;
    p.thorough_cases = 100000000;
    p.required_labels = {"hangup", "error", "nothing ready", "some ready", "removed after closing",
                         "descriptor number used again", "more than 64 ready", "ready while waiting"};
    return run_main(argc, argv, p);
}
