// C23: static mounts serve each file under their root exactly.
#include "tree.h"

using namespace pbt;
using namespace tree;

static std::string mime(const std::string& path) {
    static const std::map<std::string, std::string> types = {
        {".html", "text/html"}, {".htm", "text/html"}, {".css", "text/css"}, {".json", "application/json"},
        {".xml", "application/xml"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"},
        {".gif", "image/gif"}, {".svg", "image/svg+xml"}, {".txt", "text/plain"}, {".pdf", "application/pdf"},
        {".zip", "application/zip"}, {".woff2", "font/woff2"}, {".js", "application/javascript"}};
    const std::string name = fs::path(path).filename();
    const size_t dot = name.rfind('.');
    if (dot == std::string::npos) {
        return "application/octet-stream";
    }
    auto it = types.find(name.substr(dot));
    return it == types.end() ? "application/octet-stream" : it->second;
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    Tree t;
    build(c, t, true);
    const std::string prefix = c.pick<std::string>({"/static", "/", "/s/", "/a/b", ""});
    const std::string spelled = spelling(c, t);
    ion::Router router;
    router.add_static_handler(std::make_unique<ion::StaticFileHandler>(prefix, spelled));
    bool served = false, missing = false;
    const auto inside = [&](const std::string& p) { return p == t.root || p.starts_with(t.root + "/"); };
    for (size_t i = 0, n = 5 + c.len(50); i < n; i++) {
        const std::string path = request(c, t, prefix);
        std::string rel = path.substr(prefix.size());
        rel = rel.substr(0, rel.find('?'));
        if (rel.empty() || rel == "/") {
            rel = "/index.html";
            c.label(path.find('?') != std::string::npos ? "bare prefix with a query" : "bare prefix");
        }
        if (rel.starts_with("/")) {
            rel.erase(0, 1);
        }
        auto ask = [&](const std::string& m) {
            return router.get_handler(path, m)(ion::HttpRequest{.method = m, .path = path});
        };
        const auto get = ask("GET");
        const auto head = ask("HEAD");
        c.note([&] { return std::format("GET {} -> {}", quote(path), tree::show(get)); });
        const auto what = [&] { return std::format("{} (root {})", quote(path), spelled); };

        // the two methods agree
        c.check(get.status_code == head.status_code, [&] { return std::format("GET {} is {}, HEAD {}", what(), get.status_code, head.status_code); });
        c.check(head.body.empty(), [&] { return "HEAD with a body for " + what(); });
        c.check(head_field(get, "content-type") == head_field(head, "content-type"), [&] { return "content types of GET and HEAD differ for " + what(); });
        if (get.status_code == 200) {
            c.check(head_field(head, "content-length") == std::to_string(get.body.size()), [&] {
                return std::format("HEAD {} gives a content-length of {} for {} octets", what(), head_field(head, "content-length"), get.body.size());
            });
        } else {
            c.check(get.body.empty(), [&] { return "an error with a body for " + what(); });
        }

        const bool odd = rel.find('\0') != std::string::npos;
        const std::string target = rel.starts_with("/") ? rel : t.root + "/" + rel;
        char real[PATH_MAX];
        errno = 0;
        const bool exists = !odd && realpath(target.c_str(), real);
        const int err = errno;
        struct stat sb{};
        const bool regular = exists && stat(real, &sb) == 0 && S_ISREG(sb.st_mode);
        if (exists && inside(real) && regular) {
            served = true;
            c.check(get.status_code == 200, [&] { return std::format("GET {} answered {} although it is the file {}", what(), get.status_code, real); });
            c.check(body_text(get) == t.inside[real], [&] {
                return std::format("GET {} answered {} octets instead of the {} of {}", what(), get.body.size(), t.inside[real].size(), real);
            });
            const std::string type = head_field(get, "content-type");
            c.check(type.starts_with(mime(real)) || type.starts_with(mime(rel)), [&] { return std::format("GET {} has content type {} instead of {}", what(), type, mime(real)); });
            if (real != target) {
                c.label("by a link or detour");
            }
            if (path.find('?') != std::string::npos) {
                c.label("with a query");
            }
            if (t.inside[real].empty()) {
                c.label("empty file");
            }
            if (t.inside[real].size() % 512 == 0 && !t.inside[real].empty()) {
                c.label("whole blocks");
            }
            if (t.inside[real].size() >= 1u << 20) {
                c.label("file of megabytes");
            }
            if (t.inside[real].size() > 70000) {
                c.label("large file");
            }
        } else if (exists && inside(real)) {
            missing = true;
            c.check(get.status_code == 404, [&] { return std::format("GET {} answered {} although {} is no regular file", what(), get.status_code, real); });
            c.label("not a regular file");
        } else if (exists) {
            c.check(get.status_code >= 400 || rel.starts_with("/"), [&] { return std::format("GET {} answered {}", what(), get.status_code); });
        } else {
            missing = true;
            // a detour through something missing may be resolved by name alone
            const bool detour = rel.find("..") != std::string::npos;
            const bool plain = !odd && !detour && !rel.starts_with("/") && (err == ENOENT || err == ENOTDIR);
            // a dangling link may lead outside
            const bool links = t.links_out || t.links_in;
            if (plain && !links) {
                c.check(get.status_code == 404, [&] { return std::format("GET {} answered {} instead of 404", what(), get.status_code); });
                c.label("missing");
            } else if (!detour && !rel.starts_with("/")) {
                c.check(get.status_code == 404 || get.status_code == 403, [&] { return std::format("GET {} answered {}", what(), get.status_code); });
            } else if (get.status_code == 200) {
                bool some = false;
                for (auto& [p, s] : t.inside) {
                    some |= s == body_text(get);
                }
                c.check(some, [&] { return std::format("GET {} answered no file of the tree", what()); });
            } else {
                c.check(get.status_code == 404 || get.status_code == 403, [&] { return std::format("GET {} answered {}", what(), get.status_code); });
            }
        }
    }
    if (served && missing) {
        c.nontrivial();
    }
    if (chdir("/") != 0) {
        c.fail("harness: chdir");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C23",
               .rule = "random trees and request paths, each asked with GET and HEAD; what must come back "
                       "is decided by realpath(3) and the contents written; non-trivial = some file was "
                       "served and something was missing",
               .fn = prop};
    p.quick_cases = 25000;
    p.thorough_cases = 100000000;
    p.required_labels = {"bare prefix", "bare prefix with a query", "by a link or detour", "with a query",
                         "empty file", "large file", "whole blocks", "not a regular file", "missing"};
    return run_main(argc, argv, p);
}
