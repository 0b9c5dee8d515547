// A small property-based testing engine (choice tapes, forked workers, coverage feedback, shrinking).
// A property is a function of one Case: every random decision is drawn from the case's tape, so any
// failing case is replayed and shrunk by editing its tape, whatever the property does with the draws.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <format>
#include <functional>
#include <map>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace pbt {

using Bytes = std::vector<uint8_t>;

struct Failure {};  // deliberately not a std::exception: code under test must not swallow it

class Case {
   public:
    // ---- drawing (0 is always the simplest outcome: shrinking pulls choices towards 0) ----
    uint64_t u(uint64_t max);  // uniform in [0, max]
    uint64_t range(uint64_t lo, uint64_t hi) {
        return lo + u(hi - lo);
    }
    bool chance(uint32_t num, uint32_t den) {
        return u(den - 1) >= den - num;
    }
    bool flip() {
        return u(1) != 0;
    }
    uint8_t byte() {
        return static_cast<uint8_t>(u(255));
    }
    // magnitude-skewed: picks a bit width first, so small values and powers of two are common
    uint64_t skewed(uint64_t max);
    // a length: mostly small, sometimes anywhere up to max
    size_t len(size_t max);
    size_t weighted(std::initializer_list<uint32_t> weights);
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[u(v.size() - 1)];
    }
    template <class T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + u(v.size() - 1));
    }
    Bytes bytes(size_t n);
    std::string str(size_t n, std::string_view alphabet);
    std::string binstr(size_t n);

    // ---- reporting ----
    void fail(const std::string& msg);       // records the failure and unwinds
    void flag_fail(const std::string& msg);  // records the failure, returns (inside callbacks)
    void check(bool ok, const std::string& msg) {
        if (!ok) {
            fail(msg);
        }
    }
    template <class F>
        requires std::is_invocable_v<F>
    void check(bool ok, F&& f) {
        if (!ok) {
            fail(f());
        }
    }
    void label(const std::string& l) {
        labels.insert(l);
    }
    void nontrivial() {
        is_nontrivial = true;
    }
    // a condition listed in known_findings.jsonl under `id` is counted, not failed
    // returns true when it is a listed known finding (the property should then stop judging the case)
    bool known(const std::string& id, const std::string& msg);
    bool verbose = false;
    void note(const std::string& s) {
        if (verbose) {
            notes.push_back(s);
        }
    }
    template <class F>
        requires std::is_invocable_v<F>
    void note(F&& f) {
        if (verbose) {
            notes.push_back(f());
        }
    }

    // engine state
    std::vector<uint64_t> in;   // choices to replay
    size_t in_pos = 0;
    bool zero_fill = false;     // past the end of `in`: 0 instead of random
    uint64_t rng_state[4] = {};
    uint64_t* out = nullptr;    // recorded choices (shared memory)
    size_t out_len = 0;
    size_t out_cap = 0;
    std::atomic<uint64_t>* out_len_mirror = nullptr;
    std::set<std::string> labels;
    bool is_nontrivial = false;
    bool failed = false;
    std::string fail_msg;
    std::vector<std::string> notes;
    std::map<std::string, uint64_t> known_hits;

    uint64_t next_random();
    void seed(uint64_t s);
};

struct Property {
    std::string id;
    std::string rule;  // how cases are made and what makes one non-trivial
    std::function<void(Case&)> fn;
    uint64_t quick_cases = 20000;
    uint64_t thorough_cases = 2000000;
    double quick_max_s = 150;
    double thorough_max_s = 500;
    double case_cpu_s = 20;  // CPU seconds for a single case before it counts as a hang
    std::function<std::vector<std::vector<uint64_t>>()> seed_tapes{};  // always run first
    std::vector<std::string> assumptions{};
    std::function<void()> worker_init{};
    std::vector<std::string> required_labels{};  // generator health: must be seen at least once
    double mutate_ratio = 0.5;
    bool exhaustive_seed = false;
};

int run_main(int argc, char** argv, const Property& p);

std::string hex(std::span<const uint8_t> d, size_t max = 512);
std::string quote(std::string_view s, size_t max = 200);

}  // namespace pbt
