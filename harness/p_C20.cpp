// C20: requests are routed to the first matching route, static mount or the 404.
#include <filesystem>
#include <fstream>
#include <unistd.h>

#include "ion_util.h"
#include "router.h"

using namespace pbt;
namespace fs = std::filesystem;

static std::string mounts_dir;

static void worker_init() {
    mounts_dir = std::string(getenv("ION_SCRATCH")) + "/c20-" + std::to_string(getpid());
    for (int m = 0; m < 4; m++) {
        const auto d = mounts_dir + "/m" + std::to_string(m);
        fs::create_directories(d + "/sub");
        for (const char* f : {"/index.html", "/f", "/sub/g", "/b", "/x"}) {
            std::ofstream(d + f) << "mount " << m << " " << f;
        }
    }
}

struct R {
    std::string path, method;
};
struct M {
    std::string prefix;
    int dir;
};
struct Looked {
    ion::RouteHandler handler;
    std::string path, method;
    int route;                // the route that must run, or -1
    std::vector<int> mounts;  // else one of these mounts, or the 404
};

static std::string text(const ion::HttpResponse& r) {
    return {r.body.begin(), r.body.end()};
}

static void prop(Case& c) {
    quiet_logs();
    auto router = std::make_unique<ion::Router>();
    std::vector<R> routes;
    std::vector<M> mounts;
    std::vector<Looked> looked;
    std::vector<std::pair<int, ion::HttpRequest>> ran;
    const std::vector<std::string> paths = {"/", "/a", "/a/", "/a/b", "/A", "/s/f", "/s", "/s/", "/s/sub/g", "/t/f", "/a?q=1",
                                            "", "/s/none", "/t/index.html", "/a/b/c", "//a", "/s/b", "/t", "*", "/s/f?x"};
    const std::vector<std::string> methods = {"GET", "HEAD", "POST", "get", "PUT", "GETX", "GE", "", "OPTIONS"};
    bool routed = false, mounted = false, missed = false, shadow = false;
    // fresh strings each time, freed right after the call: nothing may refer to them later
    auto a_path = [&] {
        std::string p = c.chance(1, 8) ? "/" + c.str(c.len(40), "ab/") : paths[c.u(paths.size() - 1)];
        if (c.chance(1, 4)) {  // almost one of the others: what is compared is the whole path, octet by octet
            const std::string odd = c.chance(1, 4) ? std::string(1, static_cast<char>(c.byte()))
                                                   : c.pick<std::string>({"#", "?", ";", ":", "%", "%2f", "%61", "&", "=", "\\", ".", "/.", "/..", " ", "+", "~", "@", "*", "//"});
            p.insert(c.flip() ? p.size() : c.u(p.size()), odd + (c.flip() ? "" : c.pick<std::string>({"x", "a", "1=2", "/"})));
        } else if (c.chance(1, 12) && !p.empty()) {
            p[c.u(p.size() - 1)] ^= 0x20;
        }
        return p;
    };
    auto a_method = [&] {
        return c.chance(2, 3) ? methods[c.u(2)] : methods[c.u(methods.size() - 1)];
    };
    const size_t ops = 2 + c.len(60);
    for (size_t i = 0; i < ops; i++) {
        switch (c.weighted({4, 1, 6, 5, 1})) {
            case 0: {
                const int id = static_cast<int>(routes.size());
                auto p = std::make_unique<std::string>(a_path());
                auto m = std::make_unique<std::string>(a_method());
                routes.push_back({*p, *m});
                c.note([&] { return std::format("route {}: {} {}", id, quote(*m), quote(*p)); });
                router->add_route(*p, *m, [&ran, id](const ion::HttpRequest& r) {
                    ran.emplace_back(id, r);
                    return ion::HttpResponse{.status_code = static_cast<uint16_t>(200 + id % 200)};
                });
                break;
            }
            case 1: {
                M m{c.pick<std::string>({"/s", "/t", "/s/", "/", "/s/sub", "/a"}), static_cast<int>(mounts.size() % 4)};
                c.note([&] { return std::format("mount {} at {}", m.dir, m.prefix); });
                router->add_static_handler(std::make_unique<ion::StaticFileHandler>(
                    m.prefix, mounts_dir + "/m" + std::to_string(m.dir)));
                mounts.push_back(m);
                break;
            }
            case 2: {
                Looked l;
                {
                    auto p = std::make_unique<std::string>(a_path());
                    auto m = std::make_unique<std::string>(a_method());
                    l.path = *p;
                    l.method = *m;
                    l.handler = router->get_handler(*p, *m);
                }
                l.route = -1;
                for (size_t k = 0; k < routes.size(); k++) {
                    if (routes[k].path == l.path && routes[k].method == l.method) {
                        if (l.route < 0) {
                            l.route = static_cast<int>(k);
                        } else {
                            shadow = true;
                        }
                    }
                }
                if (l.route < 0 && (l.method == "GET" || l.method == "HEAD")) {
                    for (auto& m : mounts) {
                        if (l.path.starts_with(m.prefix)) {
                            l.mounts.push_back(m.dir);
                        }
                    }
                }
                c.note([&] { return std::format("look up {} {}: route {}, {} mounts", quote(l.method), quote(l.path), l.route, l.mounts.size()); });
                looked.push_back(std::move(l));
                break;
            }
            case 3: {
                if (looked.empty()) {
                    break;
                }
                auto& l = looked[c.u(looked.size() - 1)];
                ion::HttpRequest req{.method = l.method, .path = l.path, .headers = {{"x", std::to_string(i)}}};
                ran.clear();
                const auto res = l.handler(req);
                c.note([&] { return std::format("call {} {} -> {}", quote(l.method), quote(l.path), res.status_code); });
                const auto what = std::format("{} {}", quote(l.method), quote(l.path));
                if (l.route >= 0) {
                    routed = true;
                    c.check(ran.size() == 1, [&] { return std::format("{} ran {} route handlers instead of route {}", what, ran.size(), l.route); });
                    c.check(ran[0].first == l.route, [&] { return std::format("{} ran route {} instead of {}", what, ran[0].first, l.route); });
                    c.check(res.status_code == 200 + l.route % 200, "the answer is not the route's");
                    auto& got = ran[0].second;
                    c.check(got.method == l.method && got.path == l.path && got.headers.size() == 1 &&
                                got.headers[0].value == std::to_string(i),
                            [&] { return what + ": the handler was given another request"; });
                    break;
                }
                c.check(ran.empty(), [&] { return std::format("{} ran route {} which does not match", what, ran[0].first); });
                if (l.mounts.empty()) {
                    missed = true;
                    c.check(res.status_code == 404, [&] { return std::format("{} answered {} instead of 404", what, res.status_code); });
                    c.check(res.body.empty() && res.headers.empty(), [&] { return what + ": the 404 has content"; });
                    break;
                }
                mounted = true;
                // one of the mounts must have answered
                bool ok = false;
                std::string wants;
                for (int m : l.mounts) {
                    auto direct = std::string();
                    for (auto& x : mounts) {
                        if (x.dir != m || !l.path.starts_with(x.prefix)) {
                            continue;
                        }
                        ion::StaticFileHandler h{x.prefix, mounts_dir + "/m" + std::to_string(m)};
                        const auto want = h.handle(l.path, l.method == "HEAD");
                        wants += std::format(" {} {}", want.status_code, quote(text(want)));
                        ok |= want.status_code == res.status_code && want.body == res.body &&
                              want.headers.size() == res.headers.size();
                    }
                }
                c.check(ok, [&] { return std::format("{} answered {} {} instead of{}", what, res.status_code, quote(text(res)), wants); });
                if (res.status_code == 200 && l.method == "GET") {
                    c.check(text(res).starts_with("mount "), "not a file of the mount");
                    c.label("file served");
                }
                if (l.method == "HEAD") {
                    c.check(res.body.empty(), "HEAD answered with a body");
                    c.label("HEAD");
                }
                break;
            }
            default: {
                c.note("router moved");
                auto other = std::make_unique<ion::Router>(std::move(*router));
                router = std::move(other);
            }
        }
    }
    if (shadow) {
        c.label("several routes match");
    }
    if (routed) {
        c.label("route ran");
    }
    if (mounted) {
        c.label("mount answered");
    }
    if (missed) {
        c.label("404");
    }
    if (routed && (mounted || missed)) {
        c.nontrivial();
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C20",
               .rule = "random interleavings of route and mount registration, look-ups and (delayed, "
                       "repeated) calls against a list model; non-trivial = a route and a mount or the "
                       "404 were both exercised",
               .fn = prop};
    p.quick_cases = 400000;
    p.thorough_cases = 100000000;
    p.worker_init = worker_init;
    p.required_labels = {"several routes match", "route ran", "mount answered", "404", "file served", "HEAD"};
    return run_main(argc, argv, p);
}
