// C06: the dynamic table is a bounded FIFO that agrees with RFC 7541 section 4.
#include "hpack/dynamic_table.h"
#include "hpack_ref.h"
#include "ion_util.h"

using namespace pbt;

static void compare(Case& c, ion::DynamicTable& t, const ref::Table& m, const std::string& op) {
    c.check(t.count() == m.e.size(), [&] {
        return std::format("after {}: {} entries instead of {}", op, t.count(), m.e.size());
    });
    c.check(static_cast<size_t>(t.size()) == m.size(), [&] {
        return std::format("after {}: size {} instead of {}", op, t.size(), m.size());
    });
    for (size_t i = 0; i < m.e.size(); i++) {
        auto h = t.get(i);
        c.check(h.name == m.e[i].first && h.value == m.e[i].second, [&] {
            return std::format("after {}: entry {} is {}: {} instead of {}", op, i, quote(h.name),
                               quote(h.value), ref::show({m.e[i]}));
        });
    }
}

static void prop(Case& c) {
    quiet_logs(c.chance(1, 50));
    const size_t start = c.chance(1, 3) ? c.u(200) : c.skewed(65536);
    const bool dflt = c.chance(1, 10);
    ion::DynamicTable t = dflt ? ion::DynamicTable{} : ion::DynamicTable{start};
    ref::Table m{dflt ? 65536 : start};
    c.note([&] { return std::format("limit {}", m.max); });
    std::vector<ref::Field> pool;
    const size_t ops = 1 + c.len(120);
    size_t evicted = 0;
    for (size_t i = 0; i < ops; i++) {
        switch (c.weighted({6, 2, 2, 1})) {
            case 0: {
                ref::Field f;
                if (!pool.empty() && c.chance(1, 3)) {
                    f = pool[c.u(pool.size() - 1)];
                    if (c.flip()) {
                        f.second += "x";
                    }
                } else {
                    f = {c.str(c.len(20), "abc-"), c.str(c.len(60), "xyz01")};
                    if (c.chance(1, 6)) {
                        // an entry of exactly the limit, or one octet off
                        const size_t want = m.max + c.u(2) - 1;
                        if (want >= 32 + f.first.size() && want < 70000) {
                            f.second = std::string(want - 32 - f.first.size(), 'z');
                            c.label("entry at the limit");
                        }
                    }
                }
                pool.push_back(f);
                c.note([&] { return "insert " + ref::show({f}); });
                const size_t before = m.e.size();
                t.insert({f.first, f.second});
                m.insert(f);
                evicted += before + 1 - m.e.size();
                if (ref::Table::cost(f) > m.max) {
                    c.label("oversize entry");
                }
                compare(c, t, m, "insert");
                break;
            }
            case 1: {
                size_t n;
                if (!m.e.empty() && c.flip()) {
                    size_t keep = 1 + c.u(m.e.size() - 1);
                    n = 0;
                    for (size_t k = 0; k < keep; k++) {
                        n += ref::Table::cost(m.e[k]);
                    }
                    n += c.u(2);
                    n -= 1;
                    c.label("resize at a boundary");
                } else {
                    n = c.skewed(65536);
                }
                c.note([&] { return std::format("resize {}", n); });
                const size_t before = m.e.size();
                t.set_max_table_size(n);
                m.resize(n);
                evicted += before - m.e.size();
                compare(c, t, m, "resize");
                break;
            }
            case 2: {
                if (pool.empty()) {
                    break;
                }
                ref::Field f = pool[c.u(pool.size() - 1)];
                if (c.chance(1, 4)) {
                    f.second += "?";
                }
                std::optional<size_t> want, want_name;
                for (size_t k = m.e.size(); k-- > 0;) {
                    if (m.e[k] == f) {
                        want = k;
                    }
                    if (m.e[k].first == f.first) {
                        want_name = k;
                    }
                }
                auto got = t.find({f.first, f.second});
                auto got_name = t.find_name(f.first);
                c.check(got == want, [&] {
                    return std::format("find {}: {} instead of {}", ref::show({f}),
                                       got ? std::to_string(*got) : "none",
                                       want ? std::to_string(*want) : "none");
                });
                c.check(got_name == want_name, [&] {
                    return std::format("find_name {}: {} instead of {}", quote(f.first),
                                       got_name ? std::to_string(*got_name) : "none",
                                       want_name ? std::to_string(*want_name) : "none");
                });
                if (want) {
                    c.label("search hit");
                }
                break;
            }
            default:
                t.log_contents();
        }
    }
    if (evicted) {
        c.nontrivial();
        c.label("eviction");
    }
}

int main(int argc, char** argv) {
    Property p{.id = "C06",
               .rule = "random operation histories against a list model, compared in full after "
                       "every step; non-trivial = at least one eviction",
               .fn = prop};
    p.quick_cases = 250000;
    p.thorough_cases = 200000000;
    p.required_labels = {"eviction", "oversize entry", "entry at the limit", "resize at a boundary",
                         "search hit"};
    return run_main(argc, argv, p);
}
