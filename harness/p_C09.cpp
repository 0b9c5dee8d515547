// C09: no peer byte stream or transport fault can crash or wedge a connection.
#include "fuzzstream.h"

using namespace pbt;
using namespace conn;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 40));
    Rig rig;
    Gen g{c};
    const Stream s = any_stream(c, g, rig.stage, c.chance(1, 4));
    c.label(s.what);
    auto& w = *rig.wire;
    w.in = s.in;
    w.eof = c.chance(1, 3);
    w.all_or_nothing = c.chance(1, 4);
    if (c.chance(1, 4)) {
        w.handshake_waits = static_cast<int>(c.u(3));
    }
    const bool limited = c.chance(1, 2);
    if (limited) {
        w.accept = 0;
    }
    if (c.chance(1, 4)) {
        w.read_cap = 1 + c.skewed(20000);
    }
    rig.open();
    Output o{false};
    size_t fed = 0;
    bool fault = false, wanted_write = false;
    auto after = [&](Result r) {
        c.check(w.misuse.empty(), w.misuse);
        o.feed(std::span(w.out).subspan(fed));
        fed = w.out.size();
        c.check(o.error.empty(), [&] { return "the output is not well formed: " + o.error; });
        switch (r) {
            case Result::WantRead:
                c.check(w.last_read_dry, [&] {
                    return std::format("WantRead although the last read returned data ({} octets unread)", w.unread());
                });
                c.check(!w.saw_eof, "WantRead after the end of the client's stream");
                c.check(!w.last_write_blocked, "WantRead although the last write was blocked");
                c.check(!w.write_failed, "WantRead although writing has failed");
                break;
            case Result::WantWrite:
                wanted_write = true;
                c.check(w.last_write_blocked, "WantWrite although no write is blocked");
                c.check(!w.write_failed, "WantWrite although writing has failed");
                break;
            case Result::DiscardConnection:
                break;
            default:
                c.fail("unknown result");
        }
    };
    const size_t rounds = 1 + c.len(60);
    for (size_t i = 0; i < rounds && !rig.discarded; i++) {
        const auto op = c.weighted({6, 4, 1, 1, 1, 1});
        switch (op) {
            case 0:
                if (w.deliver < w.in.size()) {
                    w.deliver += std::min(w.in.size() - w.deliver, 1 + c.skewed(c.flip() ? 60 : 40000));
                }
                break;
            case 1:
                if (w.accept != SIZE_MAX) {
                    w.accept += w.all_or_nothing ? 400000 : c.skewed(60000);
                }
                break;
            case 2:
                if (c.chance(1, 2)) {
                    w.read_error = c.pick<TErr>({TErr::WantReadOrWrite, TErr::OtherError, TErr::ProtocolError, TErr::ConnectionClosed, TErr::WriteError});
                    w.read_errors_left = c.flip() ? 1 : 3;
                    w.saw_eof |= false;
                    fault = true;
                    c.label("read fault");
                    c.note("read fault");
                }
                break;
            case 3:
                if (c.chance(1, 2)) {
                    w.write_error = c.pick<TErr>({TErr::WriteError, TErr::ProtocolError, TErr::ConnectionClosed, TErr::OtherError});
                    w.write_errors_left = c.flip() ? 1 : -1;
                    fault = true;
                    c.label("write fault");
                    c.note("write fault");
                }
                break;
            case 4:
                if (!w.handshaken && c.chance(1, 4)) {
                    w.handshake_error = c.pick<TErr>({TErr::ConnectionClosed, TErr::ProtocolError, TErr::OtherError});
                    fault = true;
                    c.label("handshake fault");
                    c.note("handshake fault");
                }
                break;
            default:
                w.write_cap = 1 + c.skewed(30000);
        }
        const bool hs_bad = w.handshake_error && w.handshake_waits == 0 && !w.handshaken;
        const bool hard_read = w.read_error == TErr::ProtocolError && w.read_errors_left != 0;
        const auto r = rig.step();
        c.note([&] { return std::format("op {} -> {} (read {}/{}, written {})", op, static_cast<int>(r), w.in_pos, w.deliver, w.out.size()); });
        after(r);
        c.check(!hs_bad || rig.discarded, "not discarded after a failed handshake");
        (void)hard_read;
    }
    // with the faults over and everything allowed, it comes to rest or is discarded
    w.accept = SIZE_MAX;
    w.write_cap = std::max<size_t>(w.write_cap, 200);
    w.deliver = w.in.size();
    w.read_error.reset();
    w.write_error.reset();
    size_t guard = 0;
    while (!rig.discarded) {
        const size_t bi = w.in_pos, bo = w.out.size();
        const int waits = w.handshake_waits;
        const auto r = rig.step();
        after(r);
        c.check(++guard < 50000, "the connection does not come to rest");
        if (w.in_pos == bi && w.out.size() == bo && w.handshake_waits == waits) {
            c.check(r != Result::WantWrite, "WantWrite although nothing is blocked");
            break;
        }
    }
    c.check(rig.discarded || w.in_pos == w.in.size(), "input left unread at rest");
    c.check(rig.discarded || !w.eof, "at rest after the end of the client's stream");
    if (s.valid && !fault) {
        c.check(rig.discarded == w.eof, "a valid session was discarded");
        c.check(o.at_boundary(), "output incomplete at rest");
        c.label("valid session carried through");
    }
    if (wanted_write) {
        c.label("blocked on writing");
    }
    if (o.frames > 2 && (fault || wanted_write || !s.valid)) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C09",
               .rule = "client streams (valid sessions, odd frames, frame soup, mutations, noise, cuts) "
                       "against scripted transports with any segmentation, blocking and faults; after "
                       "every step the result is checked against what the transport last said and the "
                       "output against HTTP/2 framing; non-trivial = several frames sent under faults, "
                       "blocking or invalid input",
               .fn = prop};
    p.quick_cases = 120000;
    p.thorough_cases = 100000000;
    p.required_labels = {"read fault", "write fault", "handshake fault", "blocked on writing",
                         "valid session", "frame soup", "noise", "valid session carried through"};
    return run_main(argc, argv, p);
}
