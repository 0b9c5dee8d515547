// C26: every request is traced by exactly one span that describes it.
#include "violation.h"

using namespace pbt;
using namespace conn;
namespace tr = opentelemetry::trace;

static void prop(Case& c) {
    quiet_logs(c.chance(1, 60));
    auto& rec = otel_stub::recorder();
    rec.reset();
    rec.enabled = true;
    tr::Provider::SetTracerProvider(std::make_shared<tr::RecordingTracerProvider>());
    tr::stub_active().clear();
    // the application may have a span of its own around everything
    std::optional<tr::Scope> scope;
    uint64_t outer = 0;
    std::shared_ptr<tr::Span> own;
    if (c.chance(1, 6)) {
        own = std::make_shared<tr::RecordingSpan>("application", 0);
        outer = own->stub_id();
        scope.emplace(own);
        c.label("span of the application around");
    }
    // several connections of one server
    const size_t conns = c.chance(1, 4) ? 2 + c.u(2) : 1;
    struct Side {
        Rig rig;
        Session s;
        std::vector<uint64_t> in_handler;
        explicit Side(std::string ip) : rig(std::move(ip)) {}
    };
    std::vector<std::unique_ptr<Side>> sides;
    size_t requests = 0, failing = 0, undecodable = 0;
    struct Want {
        size_t side;
        const Item* item;
        const Plan* plan;
    };
    for (size_t k = 0; k < conns; k++) {
        auto& sd = *sides.emplace_back(std::make_unique<Side>(c.pick<std::string>({"192.0.2.1", "2001:db8::5", "", "10.0.0." + std::to_string(k)})));
        Gen g{c};
        auto& s = sd.s;
        for (size_t i = 0, n = 1 + c.len(c.chance(1, 8) ? 60 : 12); i < n; i++) {
            switch (c.weighted({8, 2, 2})) {
                case 0: {
                    s.items.push_back(g.request(4));
                    Plan p;
                    p.resp = make_response(c, g.resp_fields, c.chance(1, 20));
                    if (c.chance(1, 5)) {
                        p.throws = static_cast<Throw>(1 + c.u(5));
                        failing++;
                    }
                    sd.rig.stage.plans.push_back(p);
                    requests++;
                    break;
                }
                case 1:
                    s.items.push_back(g.incomplete());
                    c.label("incomplete request");
                    break;
                default:
                    s.items.push_back(g.control());
            }
        }
        if (c.chance(1, 4)) {
            s.items.push_back(violation(c, g));
        }
        if (c.verbose) {
            c.note("connection");
            s.note(c);
        }
    }
    // which items make spans, in the order of their connections
    for (auto& sd : sides) {
        auto* p = sd.get();
        p->rig.stage.during = [&, p](size_t) {
            const auto cur = tr::Tracer::GetCurrentSpan();
            p->in_handler.push_back(cur->stub_id());
            auto it = rec.spans.find(cur->stub_id());
            if (cur->stub_id() == outer || it == rec.spans.end()) {
                c.flag_fail("no span is current while the handler runs");
            } else if (it->second.ended) {
                c.flag_fail("the span current while the handler runs has ended");
            }
        };
        p->rig.wire->in = p->s.bytes();
        p->rig.wire->eof = c.chance(1, 6);
        p->rig.open();
    }
    const size_t depth = tr::stub_active().size();
    // all of them in pieces, interleaved; spans seen per step belong to that connection
    std::vector<std::vector<uint64_t>> span_ids(conns);
    uint64_t seen = own ? outer : rec.next_id;
    auto run = [&](size_t k) {
        auto& sd = *sides[k];
        auto& w = *sd.rig.wire;
        for (size_t guard = 0; !sd.rig.discarded; guard++) {
            const size_t bi = w.in_pos, bo = w.out.size();
            sd.rig.step();
            c.check(tr::stub_active().size() == depth, "a span is still current after processing");
            c.check(tr::Tracer::GetCurrentSpan()->stub_id() == outer, "another span is current after processing");
            for (auto& [id, s] : rec.spans) {
                c.check(s.ended || id == outer, "a span is still open after processing");
                c.check(s.end_calls <= 1, "a span ended more than once");
                if (id > seen) {
                    seen = id;
                    span_ids[k].push_back(id);
                }
            }
            if (w.in_pos == bi && w.out.size() == bo) {
                break;
            }
            c.check(guard < 100000, "the connection does not settle");
        }
    };
    for (bool more = true; more;) {
        more = false;
        for (size_t k = 0; k < conns; k++) {
            auto& w = *sides[k]->rig.wire;
            if (sides[k]->rig.discarded || w.deliver >= w.in.size()) {
                continue;
            }
            w.deliver += std::min(w.in.size() - w.deliver, c.chance(1, 3) ? w.in.size() : 1 + c.skewed(3000));
            run(k);
            more = true;
        }
    }
    std::string name;  // the same for all requests
    for (size_t k = 0; k < conns; k++) {
        auto& sd = *sides[k];
        run(k);
        Output o;
        sd.s.announce(o);
        o.feed(sd.rig.wire->out);
        c.check(o.error.empty(), o.error);
        size_t i = 0, answers = 0, call = 0;
        for (auto& it : sd.s.items) {
            const bool headers = it.wire.size() >= 9 && it.wire[3] == h2::HEADERS;
            if (it.kind == Item::Violation && (!headers || it.what == "frame longer than 16384" ||
                                                    it.what == "header block interrupted")) {
                break;
            }
            if (!headers) {
                if (it.kind == Item::Goaway) {
                    break;
                }
                continue;
            }
            c.check(i < span_ids[k].size(), [&] { return "no span for " + it.what; });
            auto& span = rec.spans.at(span_ids[k][i++]);
            if (name.empty()) {
                name = span.name;
            }
            c.check(span.name == name, [&] { return std::format("spans named {} and {}", quote(span.name), quote(name)); });
            std::map<std::string, std::vector<std::string>> a;
            for (auto& [n, v] : span.attributes) {
                a[n].push_back(v);
            }
            const auto what = [&] {
                std::string t;
                for (auto& [n, v] : span.attributes) {
                    t += std::format(" {}={}", n, quote(v));
                }
                return std::format("span{} for {}", t, it.what);
            };
            if (it.kind == Item::Violation) {
                undecodable++;
                c.check(!a.contains("http.status_code"), [&] { return "a status in " + what(); });
                break;
            }
            c.check(answers < o.responses.size(), [&] { return "no answer to " + it.what; });
            auto& r = o.responses[answers++];
            auto one = [&](const char* name, const std::string& v) {
                c.check(a.contains(name) && a[name].back() == v, [&] { return std::format("{} is not {} in the {}", name, quote(v), what()); });
                for (auto& x : a[name]) {
                    c.check(x == v, [&] { return std::format("{} also set to {} in the {}", name, quote(x), what()); });
                }
            };
            if (it.kind == Item::Request) {
                one("http.method", it.call.method);
                one("http.target", it.call.path);
                one("ion.client_ip", sd.rig.ip);
                one("http.status_code", r.fields.empty() ? "" : r.fields[0].second);
                c.check(call < sd.in_handler.size() && sd.in_handler[call] == span.id, [&] { return "not current in its handler: " + what(); });
                call++;
            } else {
                // nothing of another request
                for (auto& [n, v] : a) {
                    if (n == "http.method" || n == "http.target") {
                        c.fail(std::format("{} in the {}", n, what()));
                    }
                    if (n == "http.status_code") {
                        one("http.status_code", r.fields.empty() ? "" : r.fields[0].second);
                    }
                }
            }
        }
        c.check(i == span_ids[k].size(), [&] { return std::format("{} spans for {} HEADERS frames", span_ids[k].size(), i); });
    }
    if (failing) {
        c.label("failing handlers");
    }
    if (undecodable) {
        c.label("undecodable block");
    }
    if (conns > 1) {
        c.label("several connections");
    }
    if (requests >= 2 && (failing || conns > 1 || undecodable)) {
        c.nontrivial();
    }
    scope.reset();
}

int main(int argc, char** argv) {
    Property p{.id = "C26",
               .rule = "one to four connections interleaved, with failing handlers, incomplete requests and "
                       "undecodable blocks, against a recording tracing API; non-trivial = several requests "
                       "with failures, several connections or an undecodable block",
               .fn = prop};
    p.quick_cases = 50000;
    p.thorough_cases = 100000000;
    p.required_labels = {"failing handlers", "undecodable block", "several connections", "incomplete request",
                         "span of the application around"};
    return run_main(argc, argv, p);
}
