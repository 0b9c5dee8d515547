// C25: the status page reports exactly the traffic served so far.
#include <cmath>

#include "clock.h"
#include "ion_util.h"
#include "router.h"
#include "server_stats.h"
#include "status_page.h"
#include "version.h"

using namespace pbt;
using std::chrono::microseconds;

// the model; statistics that cannot be reset go on from case to case
struct Model {
    uint64_t received = 0;
    std::map<uint64_t, uint64_t> codes;
    microseconds busy{0};
    uint64_t completed = 0;
    std::chrono::nanoseconds start{};
};
static Model model;

template <class S>
static bool reset(S& s) {
    if constexpr (requires {
                      s.total_requests = 0;
                      s.status_codes.clear();
                      s.total_duration_us = 0;
                      s.start_time = std::chrono::steady_clock::now();
                  }) {
        s.total_requests = 0;
        s.status_codes.clear();
        s.total_duration_us = 0;
        s.start_time = std::chrono::steady_clock::now();
        return true;
    }
    return false;
}

// the visible text, in pieces
static std::vector<std::string> visible(const std::string& html) {
    std::vector<std::string> v;
    std::string cur;
    size_t i = html.find("<body");
    i = i == std::string::npos ? 0 : i;
    bool tag = false;
    auto flush = [&] {
        const size_t b = cur.find_first_not_of(" \t\r\n"), e = cur.find_last_not_of(" \t\r\n");
        if (b != std::string::npos) {
            v.push_back(cur.substr(b, e - b + 1));
        }
        cur.clear();
    };
    for (; i < html.size(); i++) {
        if (html[i] == '<') {
            flush();
            tag = true;
        } else if (html[i] == '>' && tag) {
            tag = false;
        } else if (!tag) {
            cur += html[i];
        }
    }
    flush();
    return v;
}

struct Page {
    std::string uptime, requests, latency, footer;
    std::vector<std::pair<std::string, std::string>> codes;
    std::string why;
};
static Page read_page(const std::string& html) {
    Page p;
    const auto v = visible(html);
    auto lower = [](std::string s) {
        for (auto& ch : s) {
            ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));
        }
        return s;
    };
    auto after = [&](const std::string& label, std::string& to) {
        for (size_t i = 0; i + 1 < v.size(); i++) {
            if (lower(v[i]) == label) {
                to = v[i + 1];
                return;
            }
        }
        p.why = "no " + label;
    };
    after("uptime", p.uptime);
    after("requests", p.requests);
    after("avg latency", p.latency);
    size_t i = 0;
    while (i < v.size() && lower(v[i]) != "http status codes") {
        i++;
    }
    for (i++; i + 1 < v.size() && isdigit(static_cast<unsigned char>(v[i][0])); i += 2) {
        p.codes.emplace_back(v[i], v[i + 1]);
    }
    for (; i < v.size(); i++) {
        p.footer += v[i] + " ";
    }
    return p;
}

static bool number(const std::string& s, uint64_t& n) {
    if (s.empty() || s.size() > 19 || s.find_first_not_of("0123456789") != std::string::npos) {
        return false;
    }
    n = std::stoull(s);
    return true;
}

static void judge(Case& c, const std::string& html) {
    const Page p = read_page(html);
    c.note([&] { return std::format("page: up {} requests {} latency {} codes {}", p.uptime, p.requests, p.latency, p.codes.size()); });
    c.check(p.why.empty(), p.why + " on the page");
    uint64_t n = 0;
    c.check(number(p.requests, n) && n == model.received, [&] { return std::format("{} requests shown, {} received", p.requests, model.received); });
    std::map<uint64_t, uint64_t> codes;
    for (auto& [code, count] : p.codes) {
        uint64_t a = 0, b = 0;
        c.check(number(code, a) && number(count, b) && !codes.contains(a), "status codes: " + code + " " + count);
        codes[a] = b;
    }
    for (auto& [code, count] : model.codes) {
        c.check(codes[code] == count, [&] { return std::format("{} answers with {} shown, {} sent", codes[code], code, count); });
    }
    for (auto& [code, count] : codes) {
        c.check(count == 0 || model.codes.contains(code), [&] { return std::format("{} answers with {} shown, none sent", count, code); });
    }
    // uptime
    const auto up = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::seconds>(vclock::now - model.start).count());
    uint64_t total = 0, part = 0;
    size_t unit = 0;
    bool any = false;
    const std::string units = "dhms";
    const uint64_t secs[] = {86400, 3600, 60, 1}, lim[] = {UINT64_MAX, 24, 60, 60};
    for (char ch : p.uptime) {
        if (isdigit(static_cast<unsigned char>(ch))) {
            part = part * 10 + static_cast<uint64_t>(ch - '0');
            any = true;
        } else if (ch == ' ') {
            c.check(!any, "uptime " + p.uptime);
        } else {
            const size_t u = units.find(ch);
            c.check(any && u != std::string::npos && u >= unit && part < lim[u], "uptime " + p.uptime);
            total += part * secs[u];
            unit = u + 1;
            part = 0;
            any = false;
        }
    }
    c.check(!any && unit == 4 && total == up, [&] { return std::format("uptime {} shown after {} s", p.uptime, up); });
    // the average over the requests received or over those completed
    double lat = -1;
    char suffix[8] = {};
    c.check(sscanf(p.latency.c_str(), "%lf%7s", &lat, suffix) == 2 && std::string(suffix) == "ms", "latency " + p.latency);
    const double sum = static_cast<double>(model.busy.count()) / 1000.0;
    auto close = [&](double by) { return std::abs(lat - sum / by) <= 0.0051 + sum / by * 1e-9; };
    const bool ok = close(static_cast<double>(model.received)) || (model.completed == 0 ? lat == 0 : close(static_cast<double>(model.completed)));
    c.check(ok, [&] { return std::format("average latency {} shown for {} ms over {} requests ({} completed)", p.latency, sum, model.received, model.completed); });
    // version and instance
    c.check(p.footer.find(std::string(ion::BUILD_VERSION)) != std::string::npos, "no version in: " + p.footer);
    const size_t at = p.footer.find("instance id:");
    c.check(at != std::string::npos, "no instance id in: " + p.footer);
    std::string id = p.footer.substr(at + 12);
    id.erase(0, id.find_first_not_of(' '));
    id.erase(id.find_last_not_of(' ') + 1);
    static std::string first;
    if (first.empty()) {
        first = id;
    }
    c.check(!id.empty() && id == first, [&] { return std::format("instance id {} after {}", id, first); });
}

struct Answer {
    ion::HttpResponse resp{0};
    bool threw = false;
};

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    vclock::on = true;
    struct Off {
        ~Off() {
            vclock::on = false;
        }
    } off;
    vclock::now = std::max(vclock::now, std::chrono::nanoseconds(std::chrono::hours(1000)));
    static bool fresh = true;
    if (reset(ServerStats::instance()) || fresh) {
        model = {};
        model.start = vclock::now;
        fresh = false;
    }
    // two routers with the same routes, one of them with the status page
    ion::Router with, plain;
    struct Plan {
        ion::HttpResponse resp{200};
        microseconds takes{0};
        int throws = 0;
    };
    Plan plan;
    auto handler = [&](const ion::HttpRequest&) -> ion::HttpResponse {
        vclock::advance(plan.takes);
        if (plan.throws == 1) {
            throw std::runtime_error("planned");
        }
        if (plan.throws == 2) {
            throw 42;
        }
        return plan.resp;
    };
    const size_t when = c.u(2);
    const std::vector<std::pair<std::string, std::string>> routes = {{"/a", "GET"}, {"/b", "POST"}, {"/_ion/other", "GET"}};
    auto add = [&](ion::Router& r, size_t k) { r.add_route(routes[k].first, routes[k].second, handler); };
    auto layer = [&](ion::Router& r) {
        r.add_middleware([](auto next) {
            return [next](const ion::HttpRequest& q) {
                auto res = next(q);
                res.headers.push_back({"x-layer", "1"});
                return res;
            };
        });
    };
    const bool layered = c.flip();
    for (size_t k = 0; k < 3; k++) {
        if (k == when) {
            StatusPage::add_status_page(with);
        }
        add(with, k);
        add(plain, k);
    }
    if (layered) {
        layer(with);
        layer(plain);
    }
    size_t pages = 0, others = 0, failed = 0;
    for (size_t i = 0, n = 1 + c.len(c.chance(1, 10) ? 400 : 30); i < n; i++) {
        if (c.chance(1, 3)) {
            const int64_t us = static_cast<int64_t>(c.chance(1, 3) ? c.pick<uint64_t>({59999999, 60000000, 3599000000, 3600000000, 86400000000, 86399999999, 999999, 1000000})
                                                                    : c.skewed(400000000000));
            vclock::advance(microseconds(us));
            c.note([&] { return std::format("{} us pass", us); });
        }
        if (i == 0 && c.chance(1, 4000)) {  // a busy time
            plan = {};
            plan.takes = microseconds(c.u(200000));
            plan.resp.status_code = static_cast<uint16_t>(100 + c.u(899));
            const auto handle = with.get_handler("/a", "GET");
            const uint64_t many = 65530 + c.u(70000);
            const ion::HttpRequest q{.method = "GET", .path = "/a"};
            for (uint64_t k = 0; k < many; k++) {
                handle(q);
            }
            model.received += many;
            model.completed += many;
            model.codes[plan.resp.status_code] += many;
            model.busy += plan.takes * many;
            c.label("tens of thousands of requests");
            c.note([&] { return std::format("{} times GET /a -> {} in {} us", many, plan.resp.status_code, plan.takes.count()); });
        }
        std::string path = "/_ion/status", method = "GET";
        switch (c.weighted({4, 8, 2, 1})) {
            case 0:
                break;
            case 1:
                std::tie(path, method) = c.pick(routes);
                break;
            case 2:
                path = c.pick<std::string>({"/nowhere", "/_ion/status/", "/_ion/status?x", "/a/", ""});
                method = c.pick<std::string>({"GET", "HEAD", "PUT"});
                break;
            default:
                method = c.pick<std::string>({"HEAD", "POST", "get"});
        }
        plan = {};
        plan.resp.status_code = c.flip() ? c.pick<uint16_t>({200, 404, 500, 204, 301, 503}) : static_cast<uint16_t>(100 + c.u(899));
        plan.resp.body = c.bytes(c.len(20));
        plan.takes = microseconds(c.flip() ? c.u(5000) : c.skewed(30000000));
        plan.throws = c.chance(1, 6) ? static_cast<int>(1 + c.u(1)) : 0;
        auto ask = [&](ion::Router& r) {
            Answer a;
            try {
                a.resp = r.get_handler(path, method)(ion::HttpRequest{.method = method, .path = path});
            } catch (const std::exception&) {
                a.threw = true;
            } catch (int) {
                a.threw = true;
            }
            return a;
        };
        const auto t0 = vclock::now;
        model.received++;
        const Answer got = ask(with);
        const auto t1 = vclock::now;
        c.note([&] { return std::format("{} {} -> {}{} in {} us", method, path, got.resp.status_code, got.threw ? " (threw)" : "", (t1 - t0).count() / 1000); });
        const bool page = path == "/_ion/status" && method == "GET";
        if (page) {
            pages++;
            c.check(!got.threw && got.resp.status_code == 200, "the status page is not there");
            std::string type;
            for (auto& h : got.resp.headers) {
                if (h.name == "content-type") {
                    type = h.value;
                }
            }
            c.check(type.starts_with("text/html"), "content type " + type);
            judge(c, {got.resp.body.begin(), got.resp.body.end()});
        } else {
            others++;
            failed += got.threw;
            // (the clock runs on for the router without the page: its handlers take their time as well)
            const Answer ref = ask(plain);
            vclock::now = t1;
            bool same = got.threw == ref.threw && got.resp.status_code == ref.resp.status_code && got.resp.body == ref.resp.body &&
                        to_fields(got.resp.headers) == to_fields(ref.resp.headers);
            c.check(same, [&] { return std::format("{} {} is answered {} with the status page, {} without", method, path, got.resp.status_code, ref.resp.status_code); });
        }
        model.completed++;
        model.codes[got.threw ? 500 : got.resp.status_code]++;
        model.busy += std::chrono::duration_cast<microseconds>(t1 - t0);
    }
    if (failed) {
        c.label("handlers that throw");
    }
    if (pages >= 2 && others >= 2) {
        c.nontrivial();
        c.label("several pages");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C25",
               .rule = "request histories of up to 400 requests (routes, unknown paths, other methods, handlers "
                       "that take time or throw) with time passing in between; every page shown is read back "
                       "and compared with a model, every other response with a router without the page; "
                       "non-trivial = several pages among several other requests",
               .fn = prop};
    p.quick_cases = 60000;
    p.thorough_cases = 100000000;
    p.required_labels = {"handlers that throw", "several pages"};
    return run_main(argc, argv, p);
}
