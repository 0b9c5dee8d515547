// C21: middleware wraps every request exactly once, first registered outermost.
#include <filesystem>
#include <fstream>
#include <unistd.h>

#include "ion_util.h"
#include "router.h"

using namespace pbt;
namespace fs = std::filesystem;

static std::string dir;
static void worker_init() {
    dir = std::string(getenv("ION_SCRATCH")) + "/c21-" + std::to_string(getpid());
    fs::create_directories(dir);
    std::ofstream(dir + "/f") << "static";
}

enum Kind { Pass, EditRequest, EditResponse, Both, ShortCircuit, Twice, Recover, Throws, Kinds };
struct Layer {
    int id;
    Kind kind;
};
using Trace = std::vector<std::string>;

static std::string show(const ion::HttpRequest& r) {
    std::string s = r.method + " " + r.path;
    for (auto& h : r.headers) {
        s += " " + h.name + "=" + h.value;
    }
    return s;
}
static std::string show(const ion::HttpResponse& r) {
    std::string s = std::to_string(r.status_code) + " " + std::string(r.body.begin(), r.body.end());
    for (auto& h : r.headers) {
        s += " " + h.name + "=" + h.value;
    }
    return s;
}

// what one layer does, shared by the middleware and the model; `next` is whatever lies further in
static ion::HttpResponse act(Layer l, Trace& t, const ion::HttpRequest& in,
                             const std::function<ion::HttpResponse(const ion::HttpRequest&)>& next) {
    t.push_back(std::format("in {}: {}", l.id, show(in)));
    ion::HttpRequest req = in;
    if (l.kind == EditRequest || l.kind == Both) {
        req.headers.push_back({"m", std::to_string(l.id)});
        if (l.id % 3 == 0) {
            req.path += "!";
        }
    }
    ion::HttpResponse res{};
    if (l.kind == ShortCircuit && req.headers.size() % 2 == 1) {
        res.status_code = 418;
    } else if (l.kind == Recover) {
        try {
            res = next(req);
        } catch (const std::runtime_error&) {
            res.status_code = 503;
        }
    } else {
        if (l.kind == Twice) {
            next(req);
        }
        res = next(req);
    }
    if (l.kind == Throws && res.status_code == 404) {
        t.push_back(std::format("throw {}", l.id));
        throw std::runtime_error("planned");
    }
    if (l.kind == EditResponse || l.kind == Both) {
        res.headers.push_back({"r", std::to_string(l.id)});
        res.body.push_back(static_cast<uint8_t>('a' + l.id % 26));
        res.status_code = static_cast<uint16_t>(res.status_code + 1);
    }
    t.push_back(std::format("out {}: {}", l.id, show(res)));
    return res;
}

static void prop(Case& c) {
    quiet_logs();
    ion::Router router;
    Trace trace, model;
    std::vector<Layer> layers;
    std::vector<std::pair<std::string, std::string>> routes;
    bool mounted = false, deep = false, missed = false;
    const size_t ops = 2 + c.len(40);
    for (size_t i = 0; i < ops; i++) {
        switch (c.weighted({3, 2, 1, 4})) {
            case 0: {
                if (layers.size() > 12) {
                    break;
                }
                Kind k = static_cast<Kind>(c.u(Kinds - 1));
                if (k == Twice && std::count_if(layers.begin(), layers.end(), [](auto& l) { return l.kind == Twice; }) > 2) {
                    k = Pass;
                }
                const Layer l{static_cast<int>(layers.size()), k};
                c.note([&] { return std::format("middleware {} kind {}", l.id, static_cast<int>(k)); });
                layers.push_back(l);
                if (c.flip()) {
                    router.add_middleware([l, &trace](ion::RouteHandler next) -> ion::RouteHandler {
                        return [l, &trace, next](const ion::HttpRequest& r) { return act(l, trace, r, next); };
                    });
                } else {
                    ion::Middleware mw = [l, &trace](auto next) {
                        return [l, &trace, next](const auto& r) { return act(l, trace, r, next); };
                    };
                    router.add_middleware(mw);
                }
                break;
            }
            case 1: {
                const int id = static_cast<int>(routes.size());
                const auto p = c.pick<std::string>({"/", "/a", "/b", "/s/f"});
                const auto m = c.pick<std::string>({"GET", "POST"});
                c.note([&] { return std::format("route {}: {} {}", id, m, p); });
                routes.emplace_back(p, m);
                router.add_route(p, m, [id, &trace](const ion::HttpRequest& r) {
                    trace.push_back(std::format("route {}: {}", id, show(r)));
                    return ion::HttpResponse{.status_code = 200, .body = {'R'}, .headers = {{"id", std::to_string(id)}}};
                });
                break;
            }
            case 2:
                if (!mounted) {
                    mounted = true;
                    c.note("mount at /s");
                    router.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", dir));
                }
                break;
            default: {
                ion::HttpRequest req{.method = c.pick<std::string>({"GET", "POST", "HEAD"}),
                                     .path = c.pick<std::string>({"/", "/a", "/b", "/s/f", "/s/none", "/nothing"})};
                for (size_t k = c.u(2); k > 0; k--) {
                    req.headers.push_back({"h", std::to_string(k)});
                }
                const std::string path = req.path, method = req.method;
                // the model: the layers in registration order around what routing selects
                std::function<ion::HttpResponse(const ion::HttpRequest&)> inner;
                int route = -1;
                for (size_t k = 0; k < routes.size() && route < 0; k++) {
                    if (routes[k].first == path && routes[k].second == method) {
                        route = static_cast<int>(k);
                    }
                }
                if (route >= 0) {
                    inner = [&, route](const ion::HttpRequest& r) {
                        model.push_back(std::format("route {}: {}", route, show(r)));
                        return ion::HttpResponse{.status_code = 200, .body = {'R'}, .headers = {{"id", std::to_string(route)}}};
                    };
                } else if (mounted && path.starts_with("/s") && method != "POST") {
                    ion::StaticFileHandler direct{"/s", dir};
                    const auto want = direct.handle(path, method == "HEAD");
                    inner = [want](const ion::HttpRequest&) { return want; };
                } else {
                    missed = true;
                    inner = [](const ion::HttpRequest&) { return ion::HttpResponse{404}; };
                }
                for (size_t k = layers.size(); k > 0; k--) {
                    inner = [l = layers[k - 1], inner, &model](const ion::HttpRequest& r) { return act(l, model, r, inner); };
                }
                trace.clear();
                const auto handler = router.get_handler(path, method);
                c.check(trace.empty(), "a middleware ran during look-up");
                for (size_t times = 1 + c.u(1); times > 0; times--) {
                    trace.clear();
                    model.clear();
                    std::string want, got;
                    try {
                        want = show(inner(req));
                    } catch (const std::runtime_error&) {
                        want = "thrown";
                    }
                    try {
                        got = show(handler(req));
                    } catch (const std::runtime_error&) {
                        got = "thrown";
                    }
                    c.note([&] {
                        std::string s = std::format("request {} -> {}", show(req), got);
                        for (auto& t : trace) {
                            s += "\n    " + t;
                        }
                        return s;
                    });
                    for (size_t k = 0; k < std::max(trace.size(), model.size()); k++) {
                        c.check(k < trace.size() && k < model.size() && trace[k] == model[k], [&] {
                            return std::format("{}: step {} is '{}' instead of '{}'", show(req), k,
                                               k < trace.size() ? trace[k] : "nothing",
                                               k < model.size() ? model[k] : "nothing");
                        });
                    }
                    c.check(got == want, [&] { return std::format("{} answered {} instead of {}", show(req), got, want); });
                }
                deep |= layers.size() >= 3;
            }
        }
    }
    if (deep) {
        c.nontrivial();
        c.label("three layers or more");
    }
    if (missed && !layers.empty()) {
        c.label("404 wrapped");
    }
    if (mounted && !layers.empty()) {
        c.label("mount wrapped");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C21",
               .rule = "random interleavings of middleware (eight behaviours), routes, a mount and "
                       "requests; the exact trace of every layer's view is compared with a recursive "
                       "model; non-trivial = three or more layers",
               .fn = prop};
    p.quick_cases = 120000;
    p.thorough_cases = 100000000;
    p.worker_init = worker_init;
    p.required_labels = {"three layers or more", "404 wrapped", "mount wrapped"};
    return run_main(argc, argv, p);
}
