// C22: static mounts never reveal anything outside their root directory.
#include "tree.h"

using namespace pbt;
using namespace tree;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 100));
    Tree t;
    build(c, t, false);
    const std::string prefix = c.pick<std::string>({"/static", "/", "/s/", "/a/b", ""});
    const std::string spelled = spelling(c, t);
    ion::Router router;
    router.add_static_handler(std::make_unique<ion::StaticFileHandler>(prefix, spelled));
    std::set<std::string> secrets, publics;
    std::set<size_t> public_sizes;
    for (auto& [p, s] : t.outside) {
        secrets.insert(s);
    }
    for (auto& [p, s] : t.inside) {
        publics.insert(s);
        public_sizes.insert(s.size());
    }
    struct Asked {
        std::string method, path;
        std::string answer;
    };
    std::vector<Asked> asked;
    bool left = false, served = false;
    for (size_t i = 0, n = 5 + c.len(50); i < n; i++) {
        const std::string method = c.chance(1, 4) ? "HEAD" : "GET";
        const std::string path = request(c, t, prefix);
        ion::HttpResponse r;
        try {
            r = router.get_handler(path, method)(ion::HttpRequest{.method = method, .path = path});
        } catch (const std::exception& e) {
            c.fail(std::format("{} {} throws {}", method, quote(path), e.what()));
        }
        c.note([&] { return std::format("{} {} -> {}", method, quote(path), tree::show(r)); });
        const std::string body = body_text(r);
        const auto what = [&] { return std::format("{} {} (root {}) answered {}", method, quote(path), spelled, tree::show(r)); };
        c.check(body.find("SECRET") == std::string::npos, [&] { return what() + ", the content of a file outside"; });
        for (auto& h : r.headers) {
            c.check(h.value.find("SECRET") == std::string::npos, what);
        }
        // where the kernel takes this path, ion's query and slash handling applied
        std::string rel = path.substr(prefix.size());
        rel = rel.substr(0, rel.find('?'));
        if (rel.starts_with("/")) {
            rel.erase(0, 1);
        }
        const std::string target = rel.starts_with("/") ? rel : t.root + "/" + rel;
        char real[PATH_MAX];
        const bool exists = rel.find('\0') == std::string::npos && realpath(target.c_str(), real);
        const bool outside = exists && !(real == t.root || std::string(real).starts_with(t.root + "/"));
        // 200 only ever for a file of the tree, with its content or its length
        if (r.status_code < 400) {
            c.check(r.status_code == 200, what);
            served = true;
            if (method == "GET") {
                c.check(publics.contains(body), [&] { return what() + ", no file of the tree"; });
            } else {
                const std::string len = head_field(r, "content-length");
                const bool known = len.empty() || (len.find_first_not_of("0123456789") == std::string::npos &&
                                                   public_sizes.contains(std::stoull(len)));
                c.check(known, [&] { return what() + ", the length of no file of the tree"; });
            }
        }
        if (outside) {
            left = true;
            // repeated slashes may also be read as one: then the file meant is an inside one
            const bool alt = rel.starts_with("/");
            c.check(r.status_code >= 400 || alt, [&] { return what() + std::format(", although it leads to {}", real); });
            c.check(r.status_code < 400 || head_field(r, "content-length").empty(), what);
            c.label(rel.find("..") != std::string::npos ? "leaves by dot segments" : rel.starts_with("/") ? "leaves by an absolute path" : "leaves by a link");
        }
        asked.push_back({method, path, tree::show(r)});
    }
    // with no link to the outside, the answers do not depend on what is there
    if (!t.links_out && c.flip()) {
        c.label("outside files removed");
        for (auto& [p, s] : t.outside) {
            unlink(p.c_str());
        }
        for (auto& a : asked) {
            const auto r = router.get_handler(a.path, a.method)(ion::HttpRequest{.method = a.method, .path = a.path});
            c.check(tree::show(r) == a.answer, [&] {
                return std::format("{} {} answered {}, but {} once the files outside are removed", a.method, quote(a.path), a.answer, tree::show(r));
            });
        }
    }
    if (served) {
        c.label("served");
    }
    if (left && served) {
        c.nontrivial();
    }
    if (chdir("/") != 0) {
        c.fail("harness: chdir");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C22",
               .rule = "random trees (links to files and directories inside and outside, loops, dangling) "
                       "and request paths (dot segments, repeated slashes, absolute paths, queries, odd "
                       "octets, look-alike prefixes); every file has its own content and size, so any "
                       "leak is recognised; metamorphic: removing the outside files changes no answer; "
                       "non-trivial = some path led outside and some file was served",
               .fn = prop};
    p.quick_cases = 25000;
    p.thorough_cases = 100000000;
    p.required_labels = {"leaves by dot segments", "leaves by an absolute path", "leaves by a link",
                         "outside files removed", "served"};
    return run_main(argc, argv, p);
}
