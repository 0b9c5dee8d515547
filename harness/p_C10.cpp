// C10: splitting of reads and writes never changes what the peer or handlers see.
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include "fuzzstream.h"
#include "transports/tcp_transport.h"

using namespace pbt;
using namespace conn;

struct Seen {
    std::vector<Call> calls;
    Bytes out;
    bool discarded = false;
};

// the second run, over a real socket pair whose buffers fill
static Seen over_socket(Case& c, const Bytes& in, const std::vector<Plan>& plans, bool eof) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0) {
        c.fail("harness: socketpair");
    }
    for (int f : sv) {
        fcntl(f, F_SETFL, O_NONBLOCK);
        int sz = 1;
        setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    }
    struct Close {
        int fd;
        ~Close() {
            ::close(fd);
        }
    } closer{sv[1]};
    Stage st;
    st.plans = plans;
    auto cn = std::make_unique<ion::Http2Connection>(
        std::make_unique<ion::TcpTransport>(ion::SocketFd{sv[0]}), "192.0.2.1", st.router);
    size_t sent = 0;
    bool shut = false;
    Seen seen;
    auto drain = [&](size_t max) {
        uint8_t buf[4096];
        size_t got = 0;
        while (got < max) {
            const auto n = ::read(sv[1], buf, std::min(sizeof buf, max - got));
            if (n <= 0) {
                break;
            }
            seen.out.insert(seen.out.end(), buf, buf + n);
            got += static_cast<size_t>(n);
        }
        return got;
    };
    size_t idle = 0;
    const bool slow = c.flip();
    while (cn && idle < 3) {
        size_t did = 0;
        if (sent < in.size()) {
            const auto n = ::send(sv[1], in.data() + sent, std::min(in.size() - sent, size_t{1} + c.skewed(20000)), MSG_NOSIGNAL);
            if (n > 0) {
                sent += static_cast<size_t>(n);
                did += static_cast<size_t>(n);
            }
        } else if (eof && !shut) {
            shut = true;
            ::shutdown(sv[1], SHUT_WR);
            did++;
        }
        const size_t calls = st.calls.size();
        const auto r = cn->process();
        if (r == Result::WantWrite) {
            c.label("real socket blocked");
        }
        if (r == Result::DiscardConnection) {
            cn.reset();
            seen.discarded = true;
        }
        did += st.calls.size() - calls;
        did += more_to_do(r);
        did += drain(slow ? c.skewed(8000) : 100000);
        if (did == 0) {
            did += drain(SIZE_MAX);
        }
        idle = did ? 0 : idle + 1;
    }
    drain(SIZE_MAX);
    seen.calls = std::move(st.calls);
    return seen;
}


static void prop(Case& c) {
    quiet_logs();
    std::vector<Plan> plans;
    Stream s;
    bool eof;
    Seen a;
    {
        Rig rig;
        Gen g{c};
        s = any_stream(c, g, rig.stage, c.chance(1, 2));
        plans = rig.stage.plans;
        rig.wire->in = s.in;
        eof = rig.wire->eof = c.chance(1, 3);
        rig.wire->deliver = s.in.size();
        rig.open();
        c.check(rig.settle(), "the undisturbed run does not settle");
        a = {std::move(rig.stage.calls), std::move(rig.wire->out), rig.discarded};
    }
    Seen b;
    if (c.chance(1, 5)) {
        c.label("real socket");
        b = over_socket(c, s.in, plans, eof);
    } else {
        Rig rig;
        rig.stage.plans = plans;
        auto& w = *rig.wire;
        w.in = s.in;
        w.eof = eof;
        w.all_or_nothing = c.chance(1, 3);
        w.accept = c.chance(1, 4) ? SIZE_MAX : 0;
        w.handshake_waits = static_cast<int>(c.u(2));
        if (c.chance(1, 3)) {
            w.read_cap = 1 + c.skewed(3000);
        }
        if (c.chance(1, 3)) {
            w.write_cap = 20 + c.skewed(20000);
        }
        const bool tiny = s.in.size() < 500 && c.chance(1, 3);
        rig.open();
        size_t guard = 0;
        while (!rig.discarded) {
            const size_t bi = w.in_pos, bo = w.out.size();
            const int waits = w.handshake_waits;
            const auto r = rig.step();
            c.check(w.misuse.empty(), w.misuse);
            if (w.in_pos == bi && w.out.size() == bo && w.handshake_waits == waits) {
                // at rest under the current limits: lift one of them
                const bool more_in = w.deliver < w.in.size();
                if (r == Result::WantWrite && (!more_in || c.flip())) {
                    w.accept += w.all_or_nothing && c.chance(2, 3) ? 400000 : 1 + c.skewed(40000);
                } else if (more_in) {
                    const size_t left = w.in.size() - w.deliver;
                    w.deliver += tiny ? 1 : std::min(left, 1 + c.skewed(c.chance(3, 4) ? 100 : 40000));
                } else if (r == Result::WantRead) {
                    break;
                }
                c.check(++guard < 20000, "the connection does not come to rest");
            }
        }
        if (w.blocked_writes) {
            c.label("blocked writes");
        }
        if (w.partial_writes) {
            c.label("short writes");
        }
        b = {std::move(rig.stage.calls), std::move(w.out), rig.discarded};
    }
    const auto d = diff_calls(a.calls, b.calls);
    c.check(d.empty(), [&] { return "with the split: " + d; });
    c.check(a.discarded == b.discarded, [&] {
        return std::format("discarded: {} at once, {} when split", a.discarded, b.discarded);
    });
    // a GOAWAY sent while discarding is not waited for
    size_t common = 0;
    while (common < a.out.size() && common < b.out.size() && a.out[common] == b.out[common]) {
        common++;
    }
    const bool same = a.out.size() == b.out.size() && common == a.out.size();
    bool lost_goaway = false;
    if (!same && a.discarded && common == b.out.size()) {
        Output full{false}, part{false};
        full.feed(a.out);
        part.feed(b.out);
        lost_goaway = full.error.empty() && !full.events.empty() && full.events.back().kind == Event::Goaway &&
                      a.out.size() - b.out.size() <= 17;
    }
    c.check(same || lost_goaway, [&] {
        return std::format("{} octets sent at once, {} when split, first difference at {}: {} / {}", a.out.size(),
                           b.out.size(), common,
                           hex(std::span(a.out).subspan(std::min(common, a.out.size())), 24),
                           hex(std::span(b.out).subspan(std::min(common, b.out.size())), 24));
    });
    if (lost_goaway) {
        c.label("GOAWAY not waited for");
    }
    if (a.calls.size() >= 2) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C10",
               .rule = "differential: the same client stream (valid or not) delivered at once with free "
                       "writes, and in random pieces with blocked, short and retried writes over a "
                       "scripted transport or a real socket pair with minimal buffers; handler calls and "
                       "output must be equal; non-trivial = at least two handler calls",
               .fn = prop};
    p.quick_cases = 40000;
    p.thorough_cases = 100000000;
    p.required_labels = {"real socket", "real socket blocked", "blocked writes", "short writes"};
    return run_main(argc, argv, p);
}
