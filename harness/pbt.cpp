#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <sstream>

// ------------------------------------------------------------------ sanitizer defaults
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
           "detect_stack_use_after_return=1:handle_abort=1:allocator_release_to_os_interval_ms=-1:"
           "quarantine_size_mb=16:max_allocation_size_mb=4096:detect_odr_violation=0:"
           "malloc_context_size=8:fast_unwind_on_malloc=1";
}
extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:report_thread_leaks=0";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}

// ------------------------------------------------------------------ coverage counters
namespace {
struct CovRange {
    uint8_t* start;
    uint8_t* stop;
};
std::vector<CovRange>& cov_ranges() {
    static auto* r = new std::vector<CovRange>();
    return *r;
}
}  // namespace
extern "C" void __sanitizer_cov_8bit_counters_init(char* start, char* stop) {
    auto* s = reinterpret_cast<uint8_t*>(start);
    for (auto& r : cov_ranges()) {
        if (r.start == s) {
            return;
        }
    }
    cov_ranges().push_back({s, reinterpret_cast<uint8_t*>(stop)});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace pbt {

namespace {

using Clock = std::chrono::steady_clock;

// the harness may wrap steady_clock::now in the code under test; the engine reads the kernel's
double wall() {
    timespec ts{};
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

uint64_t hash_str(std::string_view s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

uint64_t hash_tape(const uint64_t* d, size_t n) {
    uint64_t h = 0x1234567 + n;
    for (size_t i = 0; i < n; i++) {
        h ^= d[i] + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 32;
    }
    return h;
}

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed) {
        for (auto& x : s) {
            x = splitmix(seed);
        }
    }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t result = rotl(s[1] * 5, 7) * 9;
        const uint64_t t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return result;
    }
    uint64_t below(uint64_t n) {
        return n == 0 ? 0 : next() % n;
    }
};

std::vector<std::string> g_known_ids;

constexpr size_t TAPE_CAP = 1 << 20;
constexpr size_t TEXT_CAP = 1 << 20;
constexpr size_t DISTINCT_CAP = 1 << 20;
constexpr size_t RING_TAPES = 512;
constexpr size_t RING_CAP = 2U << 20;

struct Shared {
    std::atomic<uint64_t> cases;
    std::atomic<uint64_t> tape_len;
    std::atomic<int> state;  // 0 running, 1 finished, 2 property failure
    std::atomic<uint64_t> text_len;
    std::atomic<uint64_t> distinct_len;
    char msg[8192];
    uint64_t tape[TAPE_CAP];
    char text[TEXT_CAP];
    uint64_t distinct[DISTINCT_CAP];
    // the tapes of the cases before the one that runs, for failures that depend on what those left
    // behind in the process; the newest ones that fit
    uint64_t ring_count;
    uint64_t ring_end;
    uint64_t ring_start[RING_TAPES];
    uint64_t ring_len[RING_TAPES];
    uint64_t ring[RING_CAP];
};

using Tapes = std::vector<std::vector<uint64_t>>;

// ring_start counts words ever written, so that a tape is still there if nothing wrote past it
void ring_push(Shared* sh, const uint64_t* tape, size_t n) {
    if (n > RING_CAP / 8) {
        return;
    }
    if (sh->ring_end % RING_CAP + n > RING_CAP) {
        sh->ring_end += RING_CAP - sh->ring_end % RING_CAP;
    }
    memcpy(sh->ring + sh->ring_end % RING_CAP, tape, n * sizeof(uint64_t));
    sh->ring_start[sh->ring_count % RING_TAPES] = sh->ring_end;
    sh->ring_len[sh->ring_count % RING_TAPES] = n;
    sh->ring_end += n;
    sh->ring_count++;
}

// oldest first
Tapes ring_read(const Shared* sh) {
    Tapes out;
    const uint64_t from = sh->ring_count > RING_TAPES ? sh->ring_count - RING_TAPES : 0;
    for (uint64_t k = from; k < sh->ring_count; k++) {
        const uint64_t start = sh->ring_start[k % RING_TAPES];
        if (start + RING_CAP < sh->ring_end) {
            continue;
        }
        const uint64_t* q = sh->ring + start % RING_CAP;
        out.emplace_back(q, q + sh->ring_len[k % RING_TAPES]);
    }
    return out;
}

Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return static_cast<Shared*>(p);
}

void set_msg(Shared* sh, const std::string& m) {
    size_t n = std::min(m.size(), sizeof(sh->msg) - 1);
    memcpy(sh->msg, m.data(), n);
    sh->msg[n] = 0;
}

void arm(double cpu) {
    itimerval t{};
    t.it_value.tv_sec = static_cast<long>(cpu);
    t.it_value.tv_usec = static_cast<long>((cpu - static_cast<double>(t.it_value.tv_sec)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
    itimerval r{};
    r.it_value.tv_sec = static_cast<long>(cpu * 8) + 20;
    setitimer(ITIMER_REAL, &r, nullptr);
}

void run_case(const Property& p, Case& c) {
    try {
        p.fn(c);
    } catch (const Failure&) {
    } catch (const std::exception& e) {
        c.flag_fail(std::string("unexpected exception escaped: ") + e.what());
    } catch (...) {
        c.flag_fail("unexpected non-standard exception escaped");
    }
}

uint8_t bucket(uint8_t v) {
    if (v == 0)
        return 0;
    if (v == 1)
        return 1;
    if (v == 2)
        return 2;
    if (v == 3)
        return 4;
    if (v < 8)
        return 8;
    if (v < 16)
        return 16;
    if (v < 32)
        return 32;
    if (v < 128)
        return 64;
    return 128;
}

void reset_cov() {
    for (auto& r : cov_ranges()) {
        memset(r.start, 0, static_cast<size_t>(r.stop - r.start));
    }
}

size_t cov_total() {
    size_t n = 0;
    for (auto& r : cov_ranges()) {
        n += static_cast<size_t>(r.stop - r.start);
    }
    return n;
}

void mutate(std::vector<uint64_t>& t, Rng& r, const std::vector<std::vector<uint64_t>>& corpus) {
    const int ops = 1 + static_cast<int>(r.below(4));
    for (int k = 0; k < ops; k++) {
        if (t.empty()) {
            t.push_back(r.next());
            continue;
        }
        const size_t i = r.below(t.size());
        switch (r.below(9)) {
            case 0:
                t[i] = r.next();
                break;
            case 1:
                t[i] = r.below(16);
                break;
            case 2:
                t[i] = t[i] + 1;
                break;
            case 3:
                t[i] = t[i] == 0 ? 0 : t[i] - 1;
                break;
            case 4: {
                const size_t n = std::min<size_t>(t.size() - i, 1 + r.below(8));
                t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + n));
                break;
            }
            case 5: {
                const size_t n = std::min<size_t>(t.size() - i, 1 + r.below(16));
                std::vector<uint64_t> seg(t.begin() + static_cast<long>(i),
                                          t.begin() + static_cast<long>(i + n));
                t.insert(t.begin() + static_cast<long>(i), seg.begin(), seg.end());
                break;
            }
            case 6: {
                const auto& o = corpus[r.below(corpus.size())];
                if (!o.empty()) {
                    const size_t j = r.below(o.size());
                    t.resize(i);
                    t.insert(t.end(), o.begin() + static_cast<long>(j), o.end());
                }
                break;
            }
            case 7:
                t.insert(t.begin() + static_cast<long>(i), r.below(300));
                break;
            case 8:
                t.resize(i);
                break;
        }
        if (t.size() > 60000) {
            t.resize(60000);
        }
    }
}

std::string json_str(std::string_view s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            o += std::format("\\u{:04x}", c);
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

struct Options {
    std::string tier = "quick";
    uint64_t seed = 1;
    std::string evidence;
    std::string replay_dir = ".";
    std::string known_file;
    std::string log_dir = "/tmp";
    uint64_t cases = 0;
    double max_s = 0;
    int workers = 8;
};

struct Outcome {
    enum Kind { Ok, Fail, Crash, Hang } kind = Ok;
    std::string msg;
    std::vector<uint64_t> tape;
    std::string notes;
    std::string log;
};

std::string slurp_tail(const std::string& path, size_t max = 6000) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    // the head of a sanitizer report is the informative part
    auto pos = s.find("==ERROR");
    if (pos == std::string::npos) {
        pos = s.find("WARNING: ThreadSanitizer");
    }
    if (pos == std::string::npos) {
        pos = s.find("runtime error");
        if (pos != std::string::npos) {
            pos = s.rfind('\n', pos);
            pos = pos == std::string::npos ? 0 : pos + 1;
        }
    }
    if (pos == std::string::npos) {
        pos = s.find("Assertion");
        if (pos != std::string::npos) {
            pos = s.rfind('\n', pos);
            pos = pos == std::string::npos ? 0 : pos + 1;
        }
    }
    if (pos != std::string::npos) {
        return s.substr(pos, max);
    }
    return s.size() > max ? s.substr(s.size() - max) : s;
}

Shared* g_probe = nullptr;

Outcome classify_exit(int st, Shared* sh, const std::string& log) {
    Outcome o;
    const size_t n = std::min<size_t>(sh->tape_len.load(), TAPE_CAP);
    o.tape.assign(sh->tape, sh->tape + n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 1) {
        o.kind = Outcome::Ok;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && sh->state == 2) {
        o.kind = Outcome::Fail;
        o.msg = sh->msg;
    } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) {
        o.kind = Outcome::Hang;
        o.msg = "the case did not finish within its CPU/wall limit (hang)";
    } else {
        o.kind = Outcome::Crash;
        o.log = slurp_tail(log);
        std::string first = o.log.substr(0, o.log.find('\n'));
        o.msg = std::format("the process died ({} {}): {}",
                            WIFSIGNALED(st) ? "signal" : "exit code",
                            WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), first);
    }
    o.notes.assign(sh->text, std::min<size_t>(sh->text_len.load(), TEXT_CAP));
    return o;
}

void redirect_stderr(const std::string& path) {
    int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        ::close(fd);
    }
}

Outcome run_tape(const Property& p, const std::vector<uint64_t>& tape, bool verbose,
                 const Options& opt, double cpu_limit = 0, const Tapes& before = {}) {
    if (!g_probe) {
        g_probe = map_shared();
    }
    Shared* sh = g_probe;
    sh->state = 0;
    sh->tape_len = 0;
    sh->text_len = 0;
    sh->msg[0] = 0;
    const std::string log = opt.log_dir + "/probe.log";
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        redirect_stderr(log);
        if (p.worker_init) {
            p.worker_init();
        }
        for (auto& t : before) {
            Case b;
            b.in = t;
            b.zero_fill = true;
            b.out = sh->tape;
            b.out_cap = TAPE_CAP;
            b.out_len_mirror = &sh->tape_len;
            b.seed(1);
            arm(cpu_limit > 0 ? cpu_limit : p.case_cpu_s);
            run_case(p, b);
            if (b.failed) {
                set_msg(sh, b.fail_msg);
                sh->state = 2;
                _exit(77);
            }
        }
        Case c;
        c.in = tape;
        c.zero_fill = true;
        c.out = sh->tape;
        c.out_cap = TAPE_CAP;
        c.out_len_mirror = &sh->tape_len;
        c.verbose = verbose;
        c.seed(1);
        arm(cpu_limit > 0 ? cpu_limit : p.case_cpu_s);
        // notes of a crashing case are wanted too: mirror them as they are made
        run_case(p, c);
        sh->tape_len = c.out_len;
        std::string notes;
        for (auto& n : c.notes) {
            notes += n + "\n";
        }
        const size_t n = std::min(notes.size(), TEXT_CAP);
        memcpy(sh->text, notes.data(), n);
        sh->text_len = n;
        if (c.failed) {
            set_msg(sh, c.fail_msg);
            sh->state = 2;
            _exit(77);
        }
        sh->state = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    kill(-pid, SIGKILL);
    Outcome o = classify_exit(st, sh, log);
    if (o.kind != Outcome::Ok && o.tape.size() < tape.size() && o.kind != Outcome::Fail) {
        o.tape = tape;  // died mid-way: the input tape is the reproducible unit
    }
    return o;
}

std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, const Options& opt,
                             double budget_s, size_t& attempts, const Tapes& before = {}) {
    const double end = wall() + budget_s;
    attempts = 0;
    auto try_tape = [&](const std::vector<uint64_t>& t) {
        if (wall() > end || attempts > 4000) {
            return false;
        }
        attempts++;
        Outcome o = run_tape(p, t, false, opt, 0, before);
        if (o.kind == Outcome::Fail || o.kind == Outcome::Crash) {
            // use the tape actually consumed when it is shorter
            if (before.empty() && o.kind == Outcome::Fail && o.tape.size() < t.size()) {
                best = o.tape;
            } else {
                best = t;
            }
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && wall() < end && attempts <= 4000) {
        progress = false;
        // drop the tail
        for (size_t n = best.size() / 2; n >= 1; n /= 2) {
            while (best.size() > n) {
                auto t = best;
                t.resize(t.size() - n);
                if (!try_tape(t)) {
                    break;
                }
                progress = true;
            }
        }
        // delete chunks
        for (size_t n : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = 0; i + n <= best.size();) {
                auto t = best;
                t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + n));
                if (try_tape(t)) {
                    progress = true;
                } else {
                    i += n;
                }
                if (wall() > end) {
                    break;
                }
            }
        }
        // zero chunks, then single values
        for (size_t n : {16, 4, 1}) {
            for (size_t i = 0; i + n <= best.size(); i += n) {
                auto t = best;
                bool any = false;
                for (size_t k = 0; k < n; k++) {
                    any |= t[i + k] != 0;
                    t[i + k] = 0;
                }
                if (any && try_tape(t)) {
                    progress = true;
                }
                if (wall() > end) {
                    break;
                }
            }
        }
        for (size_t i = 0; i < best.size() && wall() < end; i++) {
            uint64_t lo = 0;
            uint64_t hi = best[i];
            while (lo + 1 < hi && wall() < end) {
                const uint64_t mid = lo + (hi - lo) / 2;
                auto t = best;
                if (i >= t.size()) {
                    break;
                }
                t[i] = mid;
                if (try_tape(t)) {
                    hi = mid;
                    progress = true;
                    if (i >= best.size()) {
                        break;
                    }
                } else {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

void worker(const Property& p, const Options& opt, int w, int nw, uint64_t total, double deadline,
            Shared* sh, std::atomic<int>* stop,
            const std::vector<std::vector<uint64_t>>& seeds) {
    setpgid(0, 0);
    redirect_stderr(std::format("{}/w{}.log", opt.log_dir, w));
    if (p.worker_init) {
        p.worker_init();
    }
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> known;
    std::vector<std::string> samples;
    std::set<std::string> sample_keys;
    std::vector<std::vector<uint64_t>> corpus;
    const size_t ncov = cov_total();
    std::vector<uint8_t> global_cov(ncov, 0);
    uint64_t id_hash = hash_str(p.id);
    uint64_t ws = opt.seed * 0x9e3779b97f4a7c15ULL ^ id_hash ^ (static_cast<uint64_t>(w) << 56);
    Rng eng(splitmix(ws));
    uint64_t cases = 0;
    uint64_t nontrivial = 0;
    uint64_t mutated = 0;
    std::vector<uint64_t> tape_buf;
    for (uint64_t i = static_cast<uint64_t>(w); i < total; i += static_cast<uint64_t>(nw)) {
        if (stop->load(std::memory_order_relaxed)) {
            break;
        }
        if (i >= seeds.size() && wall() > deadline) {
            break;
        }
        Case c;
        uint64_t cs = opt.seed ^ id_hash;
        cs = splitmix(cs) + i * 0xd1342543de82ef95ULL;
        c.seed(cs);
        c.out = sh->tape;
        c.out_cap = TAPE_CAP;
        c.out_len_mirror = &sh->tape_len;
        if (i < seeds.size()) {
            c.in = seeds[i];
            c.zero_fill = true;
        } else if (!corpus.empty() &&
                   eng.below(1000) < static_cast<uint64_t>(p.mutate_ratio * 1000)) {
            // favour recent additions
            size_t k = eng.below(corpus.size());
            k = std::max<size_t>(k, eng.below(corpus.size()));
            c.in = corpus[k];
            mutate(c.in, eng, corpus);
            mutated++;
        }
        c.verbose = w == 0 && samples.size() < 8 && (cases < 400 || cases % 499 == 0);
        sh->tape_len = 0;
        arm(p.case_cpu_s);
        if (ncov) {
            reset_cov();
        }
        run_case(p, c);
        sh->tape_len = c.out_len;
        cases++;
        sh->cases = cases;
        if (c.failed) {
            set_msg(sh, c.fail_msg);
            sh->state = 2;
            _exit(77);
        }
        ring_push(sh, sh->tape, std::min(c.out_len, TAPE_CAP));
        for (auto& l : c.labels) {
            labels[l]++;
        }
        for (auto& [k, v] : c.known_hits) {
            known[k] += v;
        }
        const uint64_t th = hash_tape(sh->tape, std::min(c.out_len, TAPE_CAP));
        if (c.is_nontrivial) {
            nontrivial++;
            if (distinct.size() < DISTINCT_CAP) {
                distinct.insert(th);
            }
            if (c.verbose) {
                std::string key;
                for (auto& l : c.labels) {
                    key += l + "|";
                }
                if (sample_keys.insert(key).second) {
                    std::string s;
                    for (auto& n : c.notes) {
                        s += n + "; ";
                        if (s.size() > 1500) {
                            s.resize(1500);
                            s += "...";
                            break;
                        }
                    }
                    samples.push_back(s);
                }
            }
        }
        if (ncov) {
            bool fresh = false;
            size_t off = 0;
            for (auto& r : cov_ranges()) {
                for (uint8_t* q = r.start; q < r.stop; q++, off++) {
                    if (*q) {
                        const uint8_t b = bucket(*q);
                        if (!(global_cov[off] & b)) {
                            global_cov[off] |= b;
                            fresh = true;
                        }
                    }
                }
            }
            if (fresh && c.out_len <= 60000 && corpus.size() < 20000) {
                corpus.emplace_back(sh->tape, sh->tape + c.out_len);
            }
        }
    }
    itimerval z{};
    setitimer(ITIMER_PROF, &z, nullptr);
    setitimer(ITIMER_REAL, &z, nullptr);
    // report
    std::string t;
    size_t edges = 0;
    for (auto b : global_cov) {
        edges += b != 0;
    }
    t += std::format("S cases {}\nS nontrivial {}\nS mutated {}\nS corpus {}\n", cases, nontrivial,
                     mutated, corpus.size());
    std::string map;
    for (size_t i = 0; i < global_cov.size(); i += 4) {
        int nib = 0;
        for (size_t k = 0; k < 4 && i + k < global_cov.size(); k++) {
            nib |= (global_cov[i + k] != 0) << k;
        }
        map += "0123456789abcdef"[nib];
    }
    t += "C " + map + "\n";
    for (auto& [k, v] : labels) {
        t += std::format("L {} {}\n", v, k);
    }
    for (auto& [k, v] : known) {
        t += std::format("K {} {}\n", v, k);
    }
    for (auto& s : samples) {
        std::string one = s;
        std::replace(one.begin(), one.end(), '\n', ' ');
        t += "X " + one + "\n";
    }
    const size_t n = std::min(t.size(), TEXT_CAP);
    memcpy(sh->text, t.data(), n);
    sh->text_len = n;
    size_t k = 0;
    for (auto h : distinct) {
        sh->distinct[k++] = h;
    }
    sh->distinct_len = k;
    sh->state = 1;
    _exit(0);
}

std::string write_replay(const Property& p, const Options& opt, const Outcome& o,
                         const std::vector<uint64_t>& tape, size_t attempts,
                         size_t original_size, const Tapes& before = {}) {
    mkdir(opt.replay_dir.c_str(), 0755);
    std::string path =
        std::format("{}/{}-{:016x}.replay", opt.replay_dir, p.id, hash_tape(tape.data(), tape.size()));
    std::ofstream f(path);
    f << "property " << p.id << "\n";
    // run in this order, in one process; the last one is the case that failed
    for (auto& t : before) {
        f << "tape";
        for (auto v : t) {
            f << ' ' << v;
        }
        f << "\n";
    }
    f << "tape";
    for (auto v : tape) {
        f << ' ' << v;
    }
    f << "\n# shrunk from " << original_size << " choices to " << tape.size() << " in " << attempts
      << " attempts\n# --- what failed\n";
    std::istringstream m(o.msg);
    for (std::string l; std::getline(m, l);) {
        f << "# " << l << "\n";
    }
    f << "# --- the case\n";
    std::istringstream n(o.notes);
    for (std::string l; std::getline(n, l);) {
        f << "# " << l << "\n";
    }
    if (!o.log.empty()) {
        f << "# --- sanitizer output\n";
        std::istringstream g(o.log);
        for (std::string l; std::getline(g, l);) {
            f << "# " << l << "\n";
        }
    }
    return path;
}

}  // namespace

uint64_t Case::next_random() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t result = rotl(rng_state[1] * 5, 7) * 9;
    const uint64_t t = rng_state[1] << 17;
    rng_state[2] ^= rng_state[0];
    rng_state[3] ^= rng_state[1];
    rng_state[1] ^= rng_state[2];
    rng_state[0] ^= rng_state[3];
    rng_state[2] ^= t;
    rng_state[3] = rotl(rng_state[3], 45);
    return result;
}

void Case::seed(uint64_t s) {
    for (auto& x : rng_state) {
        x = splitmix(s);
    }
}

uint64_t Case::u(uint64_t max) {
    uint64_t v;
    if (in_pos < in.size()) {
        v = in[in_pos++];
        if (v > max) {
            v %= max + 1;
        }
    } else if (zero_fill) {
        v = 0;
    } else {
        v = next_random();
        if (max != UINT64_MAX) {
            v %= max + 1;
        }
    }
    if (out && out_len < out_cap) {
        out[out_len++] = v;
        if (out_len_mirror) {
            out_len_mirror->store(out_len, std::memory_order_relaxed);
        }
    }
    return v;
}

uint64_t Case::skewed(uint64_t max) {
    if (max == 0) {
        return 0;
    }
    int bits = 64 - __builtin_clzll(max);
    const uint64_t b = u(static_cast<uint64_t>(bits) * 2);
    uint64_t v;
    if (b <= static_cast<uint64_t>(bits)) {
        if (b == 0) {
            return 0;
        }
        const uint64_t lo = 1ULL << (b - 1);
        v = lo + u(lo - 1);
    } else {
        // near a power of two or near max
        const uint64_t k = b - static_cast<uint64_t>(bits);
        const uint64_t base = k >= 64 ? max : (1ULL << k);
        const uint64_t d = u(4);
        v = base + d >= 2 ? base + d - 2 : 0;
    }
    return v > max ? max - (v % 3 > max ? 0 : v % 3) : v;
}

size_t Case::len(size_t max) {
    switch (weighted({6, 3, 1})) {
        case 0:
            return u(std::min<size_t>(max, 8));
        case 1:
            return u(std::min<size_t>(max, 64));
        default:
            return skewed(max);
    }
}

size_t Case::weighted(std::initializer_list<uint32_t> weights) {
    uint64_t total = 0;
    for (auto w : weights) {
        total += w;
    }
    uint64_t v = u(total - 1);
    size_t i = 0;
    for (auto w : weights) {
        if (v < w) {
            return i;
        }
        v -= w;
        i++;
    }
    return 0;
}

Bytes Case::bytes(size_t n) {
    Bytes b(n);
    for (auto& x : b) {
        x = byte();
    }
    return b;
}

std::string Case::str(size_t n, std::string_view alphabet) {
    std::string s(n, ' ');
    for (auto& x : s) {
        x = alphabet[u(alphabet.size() - 1)];
    }
    return s;
}

std::string Case::binstr(size_t n) {
    std::string s(n, ' ');
    for (auto& x : s) {
        x = static_cast<char>(byte());
    }
    return s;
}

void Case::flag_fail(const std::string& msg) {
    if (!failed) {
        failed = true;
        fail_msg = msg;
    }
}

void Case::fail(const std::string& msg) {
    flag_fail(msg);
    throw Failure{};
}

bool Case::known(const std::string& id, const std::string& msg) {
    if (std::find(g_known_ids.begin(), g_known_ids.end(), id) != g_known_ids.end()) {
        known_hits[id]++;
        return true;
    }
    fail(msg);
    return false;
}

std::string hex(std::span<const uint8_t> d, size_t max) {
    std::string s;
    for (size_t i = 0; i < d.size() && i < max; i++) {
        s += std::format("{:02x}", d[i]);
    }
    if (d.size() > max) {
        s += std::format("...({} bytes)", d.size());
    }
    return s;
}

std::string quote(std::string_view s, size_t max) {
    std::string o = "'";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c < 0x20 || c >= 0x7f || c == '\\' || c == '\'') {
            o += std::format("\\x{:02x}", c);
        } else {
            o += static_cast<char>(c);
        }
    }
    if (s.size() > max) {
        o += std::format("...({})", s.size());
    }
    return o + "'";
}

int run_main(int argc, char** argv, const Property& p) {
    Options opt;
    if (const char* s = getenv("VERIF_SEED")) {
        opt.seed = strtoull(s, nullptr, 10);
    }
    if (const char* s = getenv("VERIF_TIER")) {
        opt.tier = s;
    }
    std::string mode = argc > 1 ? argv[1] : "run";
    std::string replay_file;
    for (int i = 2; i < argc; i++) {
        const std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--tier")
            opt.tier = val();
        else if (a == "--seed")
            opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence")
            opt.evidence = val();
        else if (a == "--replay-dir")
            opt.replay_dir = val();
        else if (a == "--known")
            opt.known_file = val();
        else if (a == "--log-dir")
            opt.log_dir = val();
        else if (a == "--cases")
            opt.cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--max-s")
            opt.max_s = atof(val().c_str());
        else if (a == "--workers")
            opt.workers = atoi(val().c_str());
        else
            replay_file = a;
    }
    if (opt.tier != "thorough") {
        opt.tier = "quick";
    }
    // known findings: one "<property> <id> ..." per line, prepared by the driver
    std::map<std::string, std::string> known_text;
    if (!opt.known_file.empty()) {
        std::ifstream f(opt.known_file);
        for (std::string l; std::getline(f, l);) {
            std::istringstream is(l);
            std::string prop, id;
            is >> prop >> id;
            std::string rest;
            std::getline(is, rest);
            if (prop == p.id) {
                g_known_ids.push_back(id);
                known_text[id] = rest.empty() ? "" : rest.substr(1);
            }
        }
    }

    if (mode == "replay") {
        std::ifstream f(replay_file);
        Tapes before;
        for (std::string l; std::getline(f, l);) {
            if (l.starts_with("tape")) {
                before.emplace_back();
                std::istringstream is(l.substr(4));
                for (uint64_t v; is >> v;) {
                    before.back().push_back(v);
                }
            }
        }
        std::vector<uint64_t> tape;
        if (!before.empty()) {
            tape = std::move(before.back());
            before.pop_back();
        }
        Outcome o = run_tape(p, tape, true, opt, 0, before);
        printf("%s", o.notes.c_str());
        static const char* kinds[] = {"held", "FAILED", "CRASHED", "HUNG"};
        printf("replay of %s: %s %s\n%s\n", replay_file.c_str(), kinds[o.kind], o.msg.c_str(),
               o.log.c_str());
        return o.kind == Outcome::Ok ? 0 : 1;
    }

    const double t0 = wall();
    const bool thorough = opt.tier == "thorough";
    const uint64_t total = opt.cases ? opt.cases : (thorough ? p.thorough_cases : p.quick_cases);
    const double max_s = opt.max_s > 0 ? opt.max_s : (thorough ? p.thorough_max_s : p.quick_max_s);
    const double deadline = t0 + max_s;
    std::vector<std::vector<uint64_t>> seeds;
    if (p.seed_tapes) {
        seeds = p.seed_tapes();
    }
    const uint64_t all = total + seeds.size();
    auto* stop = static_cast<std::atomic<int>*>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    std::vector<Shared*> sh;
    std::map<pid_t, int> pids;
    fflush(stdout);
    for (int w = 0; w < opt.workers; w++) {
        sh.push_back(map_shared());
        const pid_t pid = fork();
        if (pid == 0) {
            worker(p, opt, w, opt.workers, all, deadline, sh.back(), stop, seeds);
        }
        pids[pid] = w;
    }
    std::vector<std::pair<int, Outcome>> bad;
    std::vector<pid_t> all_pids;
    for (auto& [pid, w] : pids) {
        all_pids.push_back(pid);
    }
    while (!pids.empty()) {
        int st = 0;
        const pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) {
            if (errno == EINTR) {
                continue;
            }
            break;
        }
        auto it = pids.find(pid);
        if (it == pids.end()) {
            continue;
        }
        const int w = it->second;
        pids.erase(it);
        Outcome o = classify_exit(st, sh[static_cast<size_t>(w)],
                                  std::format("{}/w{}.log", opt.log_dir, w));
        if (o.kind != Outcome::Ok) {
            bad.emplace_back(w, std::move(o));
            stop->store(1);
        }
    }
    for (auto pid : all_pids) {
        kill(-pid, SIGKILL);
    }

    uint64_t evals = 0, nontrivial = 0, mutated = 0, corpus = 0;
    std::map<std::string, uint64_t> labels, known;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
    std::string cov;
    for (auto* s : sh) {
        evals += s->cases;
        if (s->state != 1) {
            continue;
        }
        std::istringstream is(std::string(s->text, std::min<size_t>(s->text_len, TEXT_CAP)));
        for (std::string l; std::getline(is, l);) {
            std::istringstream ls(l.substr(2));
            if (l[0] == 'S') {
                std::string k;
                uint64_t v = 0;
                ls >> k >> v;
                if (k == "nontrivial")
                    nontrivial += v;
                else if (k == "mutated")
                    mutated += v;
                else if (k == "corpus")
                    corpus += v;
            } else if (l[0] == 'L' || l[0] == 'K') {
                uint64_t v = 0;
                ls >> v;
                std::string k;
                std::getline(ls, k);
                (l[0] == 'L' ? labels : known)[k.empty() ? k : k.substr(1)] += v;
            } else if (l[0] == 'X') {
                samples.push_back(l.substr(2));
            } else if (l[0] == 'C') {
                const std::string m = l.substr(2);
                cov.resize(std::max(cov.size(), m.size()), '0');
                auto val = [](char ch) { return ch <= '9' ? ch - '0' : ch - 'a' + 10; };
                for (size_t i = 0; i < m.size(); i++) {
                    cov[i] = "0123456789abcdef"[val(cov[i]) | val(m[i])];
                }
            }
        }
        for (size_t i = 0; i < s->distinct_len; i++) {
            distinct.insert(s->distinct[i]);
        }
    }
    size_t edges = 0;
    for (char ch : cov) {
        edges += static_cast<size_t>(
            __builtin_popcount(static_cast<unsigned>(ch <= '9' ? ch - '0' : ch - 'a' + 10)));
    }

    int rc = 0;
    std::string violation_path;
    std::string violation_msg;
    std::vector<std::string> unreproduced;
    for (auto& [w, o] : bad) {
        // find the reproducible tape. For crashes the recorded length may lag: recover it.
        std::vector<uint64_t> tape = o.tape;
        const size_t original = tape.size();
        auto confirm = [&](const std::vector<uint64_t>& t, int times) {
            int bad_runs = 0;
            for (int k = 0; k < times; k++) {
                bad_runs += run_tape(p, t, false, opt).kind != Outcome::Ok;
            }
            return bad_runs;
        };
        if (confirm(tape, 3) < 3) {
            // more attempts before giving up on it
            if (confirm(tape, 6) < 5) {
                unreproduced.push_back(o.msg);
                continue;
            }
        }
        size_t attempts = 0;
        std::vector<uint64_t> small = tape;
        if (o.kind != Outcome::Hang) {
            small = shrink(p, tape, opt, thorough ? 120 : 40, attempts);
            if (confirm(small, 3) < 3) {
                small = tape;
            }
        }
        Outcome fin = run_tape(p, small, true, opt);
        if (fin.kind == Outcome::Ok) {
            fin = o;
            small = tape;
        }
        violation_path = write_replay(p, opt, fin, small, attempts, original);
        violation_msg = fin.msg;
        printf("what failed: %s\n", fin.msg.substr(0, 1500).c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), violation_path.c_str());
        rc = 1;
        break;
    }
    // a failure that the case alone does not show may need what earlier cases of its worker left behind
    // in the process: those are replayed before it, and dropped again as far as it fails without them
    const double sequences_until = wall() + 200;
    for (auto& [w, o] : bad) {
        if (rc != 0 || o.kind == Outcome::Hang) {
            continue;
        }
        const Tapes history = ring_read(sh[static_cast<size_t>(w)]);
        auto fails = [&](const Tapes& before, const std::vector<uint64_t>& t, int times) {
            for (int k = 0; k < times; k++) {
                if (wall() > sequences_until) {
                    return false;
                }
                const Outcome r = run_tape(p, t, false, opt, 0, before);
                if (r.kind != Outcome::Fail && r.kind != Outcome::Crash) {
                    return false;
                }
            }
            return true;
        };
        for (size_t n = 1;; n *= 4) {
            n = std::min(n, history.size());
            Tapes before(history.end() - static_cast<long>(n), history.end());
            if (n > 0 && fails(before, o.tape, 3)) {
                for (size_t k = std::max<size_t>(n / 2, 1);; k /= 2) {
                    for (size_t i = 0; i < before.size();) {
                        Tapes fewer = before;
                        fewer.erase(fewer.begin() + static_cast<long>(i),
                                    fewer.begin() + static_cast<long>(std::min(i + k, fewer.size())));
                        if (fails(fewer, o.tape, 2)) {
                            before = fewer;
                        } else {
                            i += k;
                        }
                    }
                    if (k == 1) {
                        break;
                    }
                }
                size_t attempts = 0;
                std::vector<uint64_t> small =
                    shrink(p, o.tape, opt, thorough ? 60 : 20, attempts, before);
                if (!fails(before, small, 3)) {
                    small = o.tape;
                }
                Outcome fin = run_tape(p, small, true, opt, 0, before);
                if (fin.kind == Outcome::Ok) {
                    fin = o;
                    small = o.tape;
                }
                fin.msg = std::format("(after {} other case(s) in the same process) {}", before.size(),
                                      fin.msg);
                violation_path = write_replay(p, opt, fin, small, attempts, o.tape.size(), before);
                violation_msg = fin.msg;
                printf("what failed: %s\n", fin.msg.substr(0, 1500).c_str());
                printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), violation_path.c_str());
                rc = 1;
                break;
            }
            if (n == history.size() || wall() > sequences_until) {
                break;
            }
        }
    }
    if (rc == 0 && !unreproduced.empty()) {
        // a failure that does not replay is not reported as a violation, nor passed silently
        printf("INCONCLUSIVE: %zu failure(s) did not replay; first: %s\n", unreproduced.size(),
               unreproduced[0].c_str());
        rc = 2;
    }
    const double dt = wall() - t0;
    const bool truncated = evals < all && bad.empty();
    std::vector<std::string> missing;
    for (auto& l : p.required_labels) {
        if (!labels.contains(l)) {
            missing.push_back(l);
        }
    }
    for (auto& [id, n] : known) {
        printf("KNOWN-FINDING: property=%s %s: %s\n", p.id.c_str(), id.c_str(),
               known_text[id].c_str());
    }
    if (!opt.evidence.empty()) {
        std::ofstream f(opt.evidence);
        f << "{\n \"property\": " << json_str(p.id) << ",\n \"tier\": " << json_str(opt.tier)
          << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
          << ",\n  \"nontrivial\": " << nontrivial << ",\n  \"rule\": " << json_str(p.rule)
          << ",\n";
        f << "  \"directed_seed_cases\": " << seeds.size()
          << ",\n  \"mutated_cases\": " << mutated << ",\n  \"corpus_tapes\": " << corpus
          << ",\n  \"edges_hit\": " << edges << ",\n  \"edges_total\": " << cov_total()
          << ",\n  \"stopped_by_time\": " << (truncated ? "true" : "false") << ",\n";
        f << "  \"labels\": {";
        bool first = true;
        for (auto& [k, v] : labels) {
            f << (first ? "" : ", ") << json_str(k) << ": " << v;
            first = false;
        }
        f << "},\n  \"labels_missing\": [";
        for (size_t i = 0; i < missing.size(); i++) {
            f << (i ? ", " : "") << json_str(missing[i]);
        }
        f << "],\n  \"known_findings_hit\": {";
        first = true;
        for (auto& [k, v] : known) {
            f << (first ? "" : ", ") << json_str(k) << ": " << v;
            first = false;
        }
        f << "},\n  \"samples\": [";
        if (samples.empty()) {
            samples.push_back(violation_msg.empty() ? "(run ended before a sample was kept)"
                                                    : violation_msg);
        }
        for (size_t i = 0; i < samples.size(); i++) {
            f << (i ? ",\n   " : "\n   ") << json_str(samples[i]);
        }
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < p.assumptions.size(); i++) {
            f << (i ? ", " : "") << json_str(p.assumptions[i]);
        }
        f << "],\n \"wall_s\": " << std::format("{:.2f}", dt)
          << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    printf("%s %s seed=%llu cases=%llu nontrivial_distinct=%zu edges=%zu/%zu corpus=%llu %.1fs%s\n",
           p.id.c_str(), opt.tier.c_str(), static_cast<unsigned long long>(opt.seed),
           static_cast<unsigned long long>(evals), distinct.size(), edges, cov_total(),
           static_cast<unsigned long long>(corpus), dt, truncated ? " (stopped by time)" : "");
    for (auto& [k, v] : labels) {
        printf("   %-48s %llu\n", k.c_str(), static_cast<unsigned long long>(v));
    }
    for (auto& m : missing) {
        printf("   MISSING LABEL %s\n", m.c_str());
    }
    return rc;
}

}  // namespace pbt
