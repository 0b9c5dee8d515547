// Directory trees with links, built under $ION_SCRATCH, for the static file checks.
#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "ion_util.h"
#include "router.h"

namespace tree {
namespace fs = std::filesystem;
using pbt::Bytes;
using pbt::Case;

inline std::string scratch() {
    static const std::string s = std::string(getenv("ION_SCRATCH")) + "/t" + std::to_string(getpid());
    return s;
}

struct Tree {
    std::string base;  // everything is below it
    std::string root;  // the mount's root
    std::map<std::string, std::string> inside, outside;  // absolute path -> content
    std::vector<std::string> dirs;                       // inside, relative to the root ("" first)
    std::vector<std::string> names;                      // anything worth putting in a request
    bool links_out = false, links_in = false;
    std::vector<std::string> show;

    ~Tree() {
        std::error_code ec;
        if (!base.empty() && base.starts_with(scratch() + "/")) {
            fs::remove_all(base, ec);
        }
    }
};

// a content no other file has, of a size no other file has
inline std::string unique_content(Case& c, size_t serial, bool outside, std::set<size_t>& taken) {
    std::string s = std::format("{}-{}-", outside ? "SECRET" : "public", serial);
    // around the sizes of blocks: files are read by some
    if (!outside && c.chance(1, 6)) {
        size_t block = c.pick<size_t>({512, 1024, 4096, 8192, 16384, 32768, 65536});
        if (c.chance(1, 100)) {
            block = c.chance(1, 10) ? 16u << 20 : 1u << (20 + c.u(2));
        }
        const size_t size = block * (block < 32768 ? 1 + c.u(3) : 1) + c.pick<size_t>({0, 0, 1, block > 65536 ? 4097 : block - 1});
        if (taken.insert(size).second) {
            while (s.size() < size) {
                s.push_back(static_cast<char>('a' + (s.size() * 7 + s.size() / 4096 + serial) % 26));
            }
            return s;
        }
    }
    const size_t want = (c.chance(1, 30) ? 100000 : c.len(200)) / 40 * 40 + serial;  // sizes stay distinct
    while (s.size() < 24 + want) {
        s.push_back(static_cast<char>('a' + (s.size() * 7 + serial) % 26));
    }
    return s;
}

inline void build(Case& c, Tree& t, bool with_empty) {
    static size_t counter = 0;
    t.base = scratch() + "/" + std::to_string(counter++);
    const std::string rn = c.pick<std::string>({"root", "r", "www.d", "a b"});
    t.root = t.base + "/" + rn;
    std::error_code ec;
    fs::remove_all(t.base, ec);
    fs::create_directories(t.root);
    const std::vector<std::string> fnames = {"index.html", "f.txt", "a.css", "noext", "x.JSON", "b.json", "p.png", "q.tar.zip", ".hid", "sp ace.js",
                                             "100%.svg", "\xc3\xa9.pdf", "...", "a&b=c.gif", "#h.xml", "..f", "i.jpeg", "w.woff2", "t.htm", "e."};
    size_t serial = 1;
    std::set<size_t> block_sizes;
    auto put = [&](const std::string& dir, bool outside, const std::string& name) {
        const std::string p = dir + "/" + name;
        if (fs::exists(fs::symlink_status(p))) {
            return;
        }
        std::string content = unique_content(c, serial++, outside, block_sizes);
        if (with_empty && !outside && c.chance(1, 10)) {
            content.clear();
        }
        std::ofstream(p, std::ios::binary) << content;
        (outside ? t.outside : t.inside)[p] = content;
        t.names.push_back(name);
        t.show.push_back((outside ? "outside " : "file ") + p.substr(t.base.size()) + std::format(" ({})", content.size()));
    };
    // the outside: a sibling whose name extends the root's, a secret directory, a file beside
    std::vector<std::string> outs = {t.base + "/" + rn + "-evil", t.base + "/secret", t.base + "/" + rn.substr(0, rn.size() - 1) + "x"};
    for (auto& o : outs) {
        fs::create_directories(o + "/sub");
        t.names.push_back(fs::path(o).filename());
        put(o, true, fnames[c.u(4)]);
        if (c.flip()) {
            put(o + "/sub", true, fnames[c.u(fnames.size() - 1)]);
        }
    }
    put(t.base, true, "beside.txt");
    put(t.base, true, "index.html");
    // the inside
    t.dirs.push_back("");
    for (size_t i = 0, n = c.u(4); i < n; i++) {
        const std::string parent = t.dirs[c.u(t.dirs.size() - 1)];
        const std::string name = c.pick<std::string>({"d", "e", "sub", "secret", "x.d", rn, "d d"});
        const std::string d = parent + "/" + name;
        if (fs::create_directory(t.root + d)) {
            t.dirs.push_back(d);
            t.names.push_back(name);
            t.show.push_back("dir " + d);
        }
    }
    for (size_t i = 0, n = 1 + c.u(8); i < n; i++) {
        put(t.root + t.dirs[c.u(t.dirs.size() - 1)], false, i == 0 && c.chance(3, 4) ? "index.html" : fnames[c.u(fnames.size() - 1)]);
    }
    if (c.chance(1, 8)) {
        const std::string p = t.root + t.dirs[c.u(t.dirs.size() - 1)] + "/fifo";
        if (mkfifo(p.c_str(), 0600) == 0) {
            t.names.push_back("fifo");
        }
    }
    // links
    for (size_t i = 0, n = c.len(8); i < n; i++) {
        const std::string dir = t.dirs[c.u(t.dirs.size() - 1)];
        const std::string name = c.pick<std::string>({"l1", "l2.html", "l3", "l4.txt", "d", "f.txt"});
        const std::string at = t.root + dir + "/" + name;
        std::string target;
        bool out = false;
        auto some = [&](std::map<std::string, std::string>& m) {
            auto it = m.begin();
            std::advance(it, c.u(m.size() - 1));
            return it->first;
        };
        switch (c.u(8)) {
            case 0:
            case 1:
                target = some(t.inside);
                break;
            case 2:
                target = t.root + t.dirs[c.u(t.dirs.size() - 1)];
                break;
            case 3:
                target = some(t.outside);
                out = true;
                break;
            case 4:
                target = outs[c.u(outs.size() - 1)];
                out = true;
                break;
            case 5:
                target = t.base;
                out = true;
                break;
            case 6:
                target = at;  // a loop
                break;
            case 7:
                target = t.root + "/missing";
                break;
            default:
                target = t.root + dir + "/" + c.pick<std::string>({"l1", "l2.html", "l3", "l4.txt"});
        }
        if (c.flip()) {
            target = fs::path(target).lexically_relative(t.root + dir).string();
            if (target.empty()) {
                target = ".";
            }
        }
        if (!fs::exists(fs::symlink_status(at)) && symlink(target.c_str(), at.c_str()) == 0) {
            t.names.push_back(name);
            t.links_out |= out;
            t.links_in |= !out;
            t.show.push_back("link " + at.substr(t.base.size()) + " -> " + (target.starts_with(t.base) ? target.substr(t.base.size()) : target));
        }
    }
    if (c.verbose) {
        c.note([&] { return "root " + t.root.substr(t.base.size()); });
        for (auto& s : t.show) {
            c.note(s);
        }
    }
}

// the mount's root as it may be written on a command line
inline std::string spelling(Case& c, const Tree& t) {
    switch (c.u(4)) {
        case 0:
            return t.root;
        case 1:
            return t.root + "/";
        case 2:
            return t.base + "/secret/../" + fs::path(t.root).filename().string();
        case 3: {
            const std::string l = t.base + "/rootlink";
            symlink(t.root.c_str(), l.c_str());
            return l;
        }
        default: {
            // relative to the working directory
            if (chdir(t.base.c_str()) == 0) {
                return c.flip() ? fs::path(t.root).filename().string() : "./" + fs::path(t.root).filename().string();
            }
            return t.root;
        }
    }
}

// a request path below `prefix`
inline std::string request(Case& c, const Tree& t, const std::string& prefix) {
    std::string p = prefix;
    auto absolute = [&](bool outside) {
        auto& m = outside ? t.outside : t.inside;
        auto it = m.begin();
        std::advance(it, c.u(m.size() - 1));
        return it->first;
    };
    switch (c.weighted({6, 4, 2, 1, 2, 2})) {
        case 0: {  // a file inside, perhaps by a detour
            std::string f = absolute(false).substr(t.root.size());
            if (prefix.ends_with("/")) {
                f.erase(0, 1);
            }
            p += f;
            if (c.chance(1, 3)) {
                const size_t slash = p.rfind('/');
                const std::string d = t.dirs.back().empty() ? "" : t.dirs.back();
                std::string detour = c.pick<std::string>({"/.", "/./.", "/missing/..", ""});
                if (!d.empty() && c.flip()) {
                    detour = "/" + fs::path(d).filename().string() + "/..";
                }
                if (slash != std::string::npos && slash + 1 >= prefix.size()) {
                    p.insert(slash, detour);
                }
            }
            break;
        }
        case 1: {  // segments
            for (size_t i = 0, n = 1 + c.u(6); i < n; i++) {
                if (i > 0 || !prefix.ends_with("/")) {
                    p += c.chance(1, 12) ? "//" : "/";
                }
                switch (c.weighted({5, 3, 1, 1})) {
                    case 0:
                        p += c.pick(t.names);
                        break;
                    case 1:
                        p += "..";
                        break;
                    case 2:
                        p += ".";
                        break;
                    default:
                        p += c.pick<std::string>({"%2e%2e", "..\\", "...", "~", "\x01", "missing", "%2f", "..%2f", std::string(300, 'n'), "\xff", ". ."});
                }
            }
            break;
        }
        case 2:  // up and out to a file outside
            for (size_t i = 0, n = 1 + c.u(3); i < n; i++) {
                p += (p.ends_with("/") ? "" : "/") + std::string("..");
            }
            p += absolute(true).substr(t.base.size());
            break;
        case 3:  // an absolute path
            p += c.pick<std::string>({"", "/", "//"}) + absolute(c.chance(2, 3));
            break;
        case 4:  // up far, then down
            for (size_t i = 0; i < 20; i++) {
                p += "/..";
            }
            p += absolute(c.chance(2, 3));
            break;
        default:
            p += c.pick<std::string>({"", "/", "/index.html", "//", "/.", "/..", "-evil/f.txt", "-evil/index.html", "x/index.html"});
    }
    if (c.chance(1, 12)) {
        p.insert(prefix.size() + c.u(p.size() - prefix.size()), 1, static_cast<char>(c.chance(1, 2) ? 0 : c.byte()));
    }
    if (c.chance(1, 5)) {
        p += "?" + c.str(c.len(12), "a=/.&?");
    }
    if (c.chance(1, 15)) {
        p += "/";
    }
    return p;
}

inline std::string body_text(const ion::HttpResponse& r) {
    return {r.body.begin(), r.body.end()};
}
inline std::string head_field(const ion::HttpResponse& r, const std::string& n) {
    std::string v;
    for (auto& h : r.headers) {
        if (h.name == n) {
            v += v.empty() ? h.value : "," + h.value;
        }
    }
    return v;
}
inline std::string show(const ion::HttpResponse& r) {
    std::string s = std::format("{} {}", r.status_code, pbt::quote(body_text(r), 60));
    for (auto& h : r.headers) {
        s += " " + h.name + "=" + h.value;
    }
    return s;
}
}  // namespace tree
