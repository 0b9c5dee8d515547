// C24: the access log has one truthful, unforgeable line per request.
#include <spdlog/sinks/ostream_sink.h>

#include <ctime>
#include <regex>
#include <sstream>

#include "access_log.h"
#include "violation.h"
#include "wall.h"

using namespace pbt;
using namespace conn;

static std::ostringstream g_log;

static void log_to_string(bool on) {
    const std::string name{ion::AccessLog::ACCESS_LOGGER_NAME};
    if (on == (spdlog::get(name) != nullptr)) {
        if (on) {
            spdlog::get(name)->set_level(spdlog::level::info);  // quiet_logs sets that of all loggers
        }
        return;
    }
    if (!on) {
        spdlog::drop(name);
        return;
    }
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(g_log, true);
    auto l = std::make_shared<spdlog::logger>(name, sink);
    l->set_pattern("%v");
    l->set_level(spdlog::level::info);
    l->flush_on(spdlog::level::info);
    spdlog::register_logger(l);
}

// any of the usual escapes: \xHH, \" and \\, \n, \r, \t
static std::optional<std::string> unescape(std::string_view s) {
    std::string out;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') {
            out += s[i];
            continue;
        }
        if (++i >= s.size()) {
            return std::nullopt;
        }
        switch (s[i]) {
            case 'x':
            case 'X':
                if (i + 2 >= s.size() || !isxdigit(static_cast<unsigned char>(s[i + 1])) || !isxdigit(static_cast<unsigned char>(s[i + 2]))) {
                    return std::nullopt;
                }
                out += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
                i += 2;
                break;
            case 'n':
                out += '\n';
                break;
            case 'r':
                out += '\r';
                break;
            case 't':
                out += '\t';
                break;
            case '"':
            case '\\':
                out += s[i];
                break;
            default:
                return std::nullopt;
        }
    }
    return out;
}

struct Line {
    std::string ip, time, method, path, version, status, size, referrer, agent;
};
// Combined Log Format, as an analyser reads it
static std::optional<Line> parse(const std::string& l, std::string& why) {
    Line r;
    size_t i = 0;
    auto word = [&](std::string& to) {
        const size_t e = l.find(' ', i);
        to = l.substr(i, e == std::string::npos ? e : e - i);
        i = e == std::string::npos ? l.size() : e + 1;
        return !to.empty();
    };
    auto quoted = [&](std::string& to) {
        if (i >= l.size() || l[i] != '"') {
            return false;
        }
        const size_t b = ++i;
        while (i < l.size() && l[i] != '"') {
            i += l[i] == '\\' ? 2 : 1;
        }
        if (i >= l.size()) {
            return false;
        }
        to = l.substr(b, i - b);
        i++;
        if (i < l.size() && l[i] == ' ') {
            i++;
        } else if (i < l.size()) {
            return false;
        }
        return true;
    };
    std::string ident, user, request;
    if (!word(r.ip) || !word(ident) || !word(user) || ident != "-" || user != "-") {
        why = "address, identity, user";
        return std::nullopt;
    }
    if (i >= l.size() || l[i] != '[' || l.find("] ", i) == std::string::npos) {
        why = "time";
        return std::nullopt;
    }
    const size_t e = l.find("] ", i);
    r.time = l.substr(i + 1, e - i - 1);
    i = e + 2;
    if (!quoted(request)) {
        why = "request line";
        return std::nullopt;
    }
    if (!word(r.status) || !word(r.size) || !quoted(r.referrer) || !quoted(r.agent) || i != l.size()) {
        why = "what follows the request line";
        return std::nullopt;
    }
    const size_t s1 = request.find(' '), s2 = request.rfind(' ');
    if (s1 == std::string::npos || s2 == s1 || request.substr(s1 + 1, s2 - s1 - 1).find(' ') != std::string::npos) {
        why = "words of the request line";
        return std::nullopt;
    }
    r.method = request.substr(0, s1);
    r.path = request.substr(s1 + 1, s2 - s1 - 1);
    r.version = request.substr(s2 + 1);
    for (auto* f : {&r.method, &r.path, &r.referrer, &r.agent}) {
        auto u = unescape(*f);
        if (!u) {
            why = "escapes in " + quote(*f);
            return std::nullopt;
        }
        *f = *u;
    }
    return r;
}

static std::optional<time_t> parse_time(const std::string& s) {
    static const std::regex re("[0-9]{2}/[A-Z][a-z]{2}/[0-9]{4}(:[0-9]{2}){3} [+-][0-9]{4}");
    if (!std::regex_match(s, re)) {
        return std::nullopt;
    }
    std::tm t{};
    const char* end = strptime(s.c_str(), "%d/%b/%Y:%H:%M:%S ", &t);
    if (!end || strlen(end) != 5 || (end[0] != '+' && end[0] != '-')) {
        return std::nullopt;
    }
    for (int i = 1; i < 5; i++) {
        if (!isdigit(static_cast<unsigned char>(end[i]))) {
            return std::nullopt;
        }
    }
    const int off = ((end[1] - '0') * 10 + end[2] - '0') * 3600 + ((end[3] - '0') * 10 + end[4] - '0') * 60;
    return timegm(&t) - (end[0] == '-' ? -off : off);
}

static std::string hostile(Case& c) {
    switch (c.u(5)) {
        case 0:
            return c.pick<std::string>({"a\" 200 5 \"x\" \"y", "x\n203.0.113.9 - - [01/Jan/2026:00:00:00 +0000] \"GET /forged HTTP/2\" 200 1 \"-\" \"-\"",
                                        "\\", "\\\"", "a\\", "\" \"", "\r\n", "\\x22", "-", " ", "  ", "\x1b[2J", "{}", "{:>9}", "%v", "\x7f", "\xc2\xa0", "\xe2\x80\xa8"});
        case 1:
            return c.binstr(c.len(60));
        case 2:
            return c.str(c.len(30), "\"\\ -[]\n\rx2n");
        case 3:
            return std::string(c.len(3000), 'a');
        default:
            return c.str(c.len(30), "Mozilla/5.0 (X11; Linux)");
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    const bool enabled = !c.chance(1, 20);
    log_to_string(enabled);
    g_log.str("");
    const std::string tz = c.pick<std::string>({"UTC0", "EST5EDT", "<+0530>-5:30", "<-0930>9:30", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0",
                                           "<-00>0:15"});
    setenv("TZ", tz.c_str(), 1);
    tzset();
    // any day, and often the seconds around one's end
    int64_t at = static_cast<int64_t>(c.u(4102444800ULL));
    if (c.chance(1, 4)) {
        at = at / 86400 * 86400 + static_cast<int64_t>(c.u(28)) * 1800 - 2;
    }
    vwall::now = std::chrono::seconds(std::max<int64_t>(at, 86400));
    vwall::step = std::chrono::milliseconds(c.pick<int>({0, 1, 300, 999, 5000}));
    Rig rig(c.pick<std::string>({"192.0.2.1", "2001:db8::1", "255.255.255.255", "", "::ffff:192.0.2.7"}));
    Gen g{c};
    Session s;
    struct Want {
        std::string method, path;
        bool has_method, has_path;
        std::set<std::string> agents, referrers;
    };
    std::vector<Want> want;
    size_t nasty = 0, planned = 0;
    const size_t n = 1 + c.len(c.chance(1, 10) ? 60 : 10);
    for (size_t i = 0; i < n; i++) {
        const auto kind = c.weighted({8, 1, 2, 1});
        if (kind == 2) {
            s.items.push_back(g.control());
            continue;
        }
        if (kind == 3 && i + 1 == n) {
            s.items.push_back(violation(c, g));
            break;
        }
        ref::Fields f;
        Item it{.kind = kind == 1 ? Item::Incomplete : Item::Request};
        it.call.method = c.chance(1, 4) ? hostile(c) : g.a_method();
        it.call.path = c.chance(1, 3) ? hostile(c) : g.a_path();
        Want w{it.call.method, it.call.path, true, true, {}, {}};
        if (kind == 1) {
            w.has_method = c.flip();
            w.has_path = !w.has_method && c.flip();
        }
        if (w.has_method) {
            f.push_back({":method", w.method});
        }
        if (w.has_path) {
            f.push_back({":path", w.path});
        }
        // a second pseudo-header is not what the request is handled by
        if (w.has_method && w.has_path && c.chance(1, 10)) {
            f.push_back({c.flip() ? ":path" : ":method", hostile(c)});
            c.label("repeated pseudo-header");
        }
        auto client_field = [&](const char* name, std::set<std::string>& values) {
            for (size_t k = 0, m = c.weighted({2, 6, 1}); k < m; k++) {
                const std::string v = hostile(c);
                values.insert(v);
                f.insert(f.begin() + static_cast<long>(c.u(f.size())), {name, v});
            }
        };
        client_field("user-agent", w.agents);
        client_field("referer", w.referrers);
        if (c.chance(1, 3)) {
            f.push_back({c.pick<std::string>({"referrer", "user-agent2", "x-user-agent", "from", "x-forwarded-for"}), hostile(c)});
        }
        auto b = g.block(f);
        if (!b) {
            continue;
        }
        for (auto& [name, v] : f) {
            for (char ch : v) {
                nasty += ch == '"' || ch == '\\' || ch == '\n' || ch == '\r';
            }
        }
        it.call.headers = f;
        it.stream = g.new_stream();
        it.wire = g.headers_frame(it.stream, *b, true);
        it.what = std::format("request {}", ref::show(f));
        s.items.push_back(it);
        want.push_back(w);
        if (kind == 0) {
            Plan p;
            p.resp = make_response(c, g.resp_fields, c.chance(1, 10));
            if (c.chance(1, 8)) {
                p.throws = static_cast<Throw>(1 + c.u(5));
            }
            rig.stage.plans.push_back(p);
            planned++;
        }
    }
    s.note(c);
    auto& w = *rig.wire;
    w.in = s.bytes();
    rig.open();
    vwall::on = true;
    time_t before = vwall::read_timespec().tv_sec;
    c.check(deliver_all(c, rig, delivery_style(c, w.in.size())), "the connection does not settle");
    const time_t after = vwall::read_timespec().tv_sec;
    vwall::on = false;
    Output o;
    s.announce(o);
    o.feed(w.out);
    c.check(o.error.empty(), o.error);
    const std::string text = g_log.str();
    c.note([&] { return "log:\n" + text; });
    if (!enabled) {
        c.check(text.empty(), "lines written with access logging off");
        return;
    }
    std::vector<std::string> lines;
    for (size_t i = 0; i < text.size();) {
        const size_t e = text.find('\n', i);
        c.check(e != std::string::npos, "the last line of the log is not ended");
        lines.push_back(text.substr(i, e - i));
        i = e + 1;
    }
    c.check(o.responses.size() == want.size(), [&] { return std::format("{} responses to {} requests", o.responses.size(), want.size()); });
    for (size_t i = 0; i < std::max(lines.size(), want.size()); i++) {
        c.check(i < lines.size(), [&] { return std::format("{} lines for {} requests", lines.size(), want.size()); });
        c.check(i < want.size(), [&] { return std::format("{} lines for {} requests; {}", lines.size(), want.size(), quote(lines[i])); });
        auto& l = lines[i];
        for (char ch : l) {
            c.check(static_cast<unsigned char>(ch) >= 0x20 && ch != 0x7f, [&] { return "control octets in line " + quote(l); });
        }
        std::string why;
        auto p = parse(l, why);
        c.check(p.has_value(), [&] { return why + " not in Combined Log Format: " + quote(l); });
        auto same = [&](const std::string& what, const std::string& got, const std::string& exp) {
            c.check(got == exp, [&] { return std::format("{} {} logged as {} in {}", what, quote(exp), quote(got), quote(l)); });
        };
        auto& r = o.responses[i];
        same("address", p->ip, rig.ip.empty() ? "-" : rig.ip);
        same("method", p->method, want[i].has_method ? want[i].method : "-");
        same("path", p->path, want[i].has_path ? want[i].path : "-");
        same("status", p->status, r.fields.empty() ? "" : r.fields[0].second);
        same("size", p->size, std::to_string(r.body.size()));
        auto among = [&](const std::string& what, const std::string& got, const std::set<std::string>& exp) {
            const bool ok = exp.empty() ? got == "-" : exp.contains(got) || (got == "-" && exp.contains(""));
            c.check(ok, [&] { return std::format("{} logged as {} in {}, sent {}", what, quote(got), quote(l), exp.empty() ? "none" : quote(*exp.begin())); });
        };
        among("user agent", p->agent, want[i].agents);
        among("referrer", p->referrer, want[i].referrers);
        c.check(p->version.starts_with("HTTP/2"), [&] { return "version in " + quote(l); });
        const auto t = parse_time(p->time);
        c.check(t && *t >= before && *t <= after, [&] { return std::format("time {} in {} (TZ {}), between {} and {}", t ? *t : -1, p->time, tz, before, after); });
        before = *t;
    }
    if (nasty && want.size() >= 2) {
        c.nontrivial();
    }
    if (nasty) {
        c.label("hostile octets");
    }
    if (rig.discarded) {
        c.label("ended by a violation");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C24",
               .rule = "sessions whose methods, paths, user agents and referrers hold quotes, backslashes, "
                       "line ends, forged entries and noise, with failing handlers, incomplete requests and "
                       "violations, in several time zones; every line is parsed as an analyser would and "
                       "compared with what was sent both ways; non-trivial = several requests, some octets "
                       "that would break a naive line",
               .fn = prop};
    p.quick_cases = 60000;
    p.thorough_cases = 100000000;
    p.required_labels = {"hostile octets", "ended by a violation", "repeated pseudo-header"};
    return run_main(argc, argv, p);
}
