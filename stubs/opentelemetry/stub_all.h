// Stand-in for the parts of the OpenTelemetry C++ API (and SDK entry points) that rhargreaves/ion uses:
// opentelemetry-cpp is not available offline. Semantics kept: a span ends at End() or when its last
// reference goes away; WithActiveSpan makes a span current until the returned Scope is destroyed, per
// thread and last-in first-out. Everything is recorded in otel_stub::recorder() for the checks.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace otel_stub {
struct Record {
    uint64_t id = 0;
    std::string name;
    uint64_t started = 0;  // position in the recorder's sequence
    uint64_t ended = 0;    // 0 while open
    int end_calls = 0;
    uint64_t parent = 0;
    std::vector<std::pair<std::string, std::string>> attributes;  // in the order they were set
    std::vector<std::string> events;
};
struct Recorder {
    std::mutex m;
    bool enabled = false;
    uint64_t seq = 0;
    uint64_t next_id = 0;
    std::map<uint64_t, Record> spans;
    void reset() {
        std::lock_guard<std::mutex> l(m);
        spans.clear();
        seq = 0;
    }
};
inline Recorder& recorder() {
    static Recorder* r = new Recorder;
    return *r;
}
}  // namespace otel_stub

namespace opentelemetry {
namespace nostd {
template <class T>
using shared_ptr = std::shared_ptr<T>;
template <class T>
using unique_ptr = std::unique_ptr<T>;
using string_view = std::string_view;
template <class T, size_t N = std::dynamic_extent>
using span = std::span<T, N>;
template <class... T>
using variant = std::variant<T...>;
}  // namespace nostd

namespace common {
class AttributeValue {
   public:
    AttributeValue(bool b) : s_(b ? "true" : "false") {}
    template <class T>
        requires(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
    AttributeValue(T v) : s_(std::to_string(v)) {}
    AttributeValue(const char* v) : s_(v) {}
    AttributeValue(std::string_view v) : s_(v) {}
    AttributeValue(const std::string& v) : s_(v) {}
    const std::string& text() const {
        return s_;
    }

   private:
    std::string s_;
};
using SystemTimestamp = std::chrono::system_clock::time_point;
using SteadyTimestamp = std::chrono::steady_clock::time_point;
}  // namespace common

namespace trace {
enum class StatusCode { kUnset, kOk, kError };
enum class SpanKind { kInternal, kServer, kClient, kProducer, kConsumer };

template <size_t N>
class HexId {
   public:
    HexId() = default;
    explicit HexId(uint64_t v) {
        for (size_t i = 0; i < 8 && i < N; i++) {
            b_[N - 1 - i] = static_cast<uint8_t>(v >> (8 * i));
        }
        if (v) {
            b_[0] = 1;
        }
    }
    void ToLowerBase16(std::span<char, 2 * N> out) const {
        for (size_t i = 0; i < N; i++) {
            out[2 * i] = "0123456789abcdef"[b_[i] >> 4];
            out[2 * i + 1] = "0123456789abcdef"[b_[i] & 15];
        }
    }
    bool IsValid() const {
        for (auto x : b_) {
            if (x) {
                return true;
            }
        }
        return false;
    }

   private:
    uint8_t b_[N] = {};
};
using TraceId = HexId<16>;
using SpanId = HexId<8>;
class SpanContext {
   public:
    SpanContext() = default;
    explicit SpanContext(uint64_t id) : id_(id) {}
    bool IsValid() const {
        return id_ != 0;
    }
    TraceId trace_id() const {
        return TraceId{id_};
    }
    SpanId span_id() const {
        return SpanId{id_};
    }
    bool IsSampled() const {
        return id_ != 0;
    }

   private:
    uint64_t id_ = 0;
};

struct EndSpanOptions {
    std::chrono::steady_clock::time_point end_steady_time{};
};
struct StartSpanOptions {
    std::chrono::system_clock::time_point start_system_time{};
    std::chrono::steady_clock::time_point start_steady_time{};
    SpanKind kind = SpanKind::kInternal;
    std::variant<SpanContext> parent{};
};
using AttrList = std::initializer_list<std::pair<std::string_view, common::AttributeValue>>;

class Span {
   public:
    virtual ~Span() = default;
    virtual void SetAttribute(std::string_view, const common::AttributeValue&) noexcept {}
    virtual void AddEvent(std::string_view) noexcept {}
    void AddEvent(std::string_view n, AttrList) noexcept {
        AddEvent(n);
    }
    virtual void SetStatus(StatusCode, std::string_view = "") noexcept {}
    virtual void UpdateName(std::string_view) noexcept {}
    virtual void End(const EndSpanOptions& = {}) noexcept {}
    virtual SpanContext GetContext() const noexcept {
        return {};
    }
    virtual bool IsRecording() const noexcept {
        return false;
    }
    virtual uint64_t stub_id() const {
        return 0;
    }
};

inline std::vector<std::shared_ptr<Span>>& stub_active() {
    static thread_local std::vector<std::shared_ptr<Span>> a;
    return a;
}

class RecordingSpan : public Span {
   public:
    RecordingSpan(std::string_view name, uint64_t parent) {
        auto& r = otel_stub::recorder();
        std::lock_guard<std::mutex> l(r.m);
        id_ = ++r.next_id;
        if (r.enabled) {
            auto& s = r.spans[id_];
            s.id = id_;
            s.name = name;
            s.parent = parent;
            s.started = ++r.seq;
        }
    }
    ~RecordingSpan() override {
        if (!ended_) {
            RecordingSpan::End({});
        }
    }
    void SetAttribute(std::string_view k, const common::AttributeValue& v) noexcept override {
        with([&](auto& s) {
            if (!ended_) {
                s.attributes.emplace_back(std::string(k), v.text());
            }
        });
    }
    void AddEvent(std::string_view n) noexcept override {
        with([&](auto& s) { s.events.emplace_back(n); });
    }
    void UpdateName(std::string_view n) noexcept override {
        with([&](auto& s) { s.name = n; });
    }
    void End(const EndSpanOptions& = {}) noexcept override {
        with([&](auto& s) {
            s.end_calls++;
            if (!ended_) {
                s.ended = ++otel_stub::recorder().seq;
            }
        });
        ended_ = true;
    }
    SpanContext GetContext() const noexcept override {
        return SpanContext{id_};
    }
    bool IsRecording() const noexcept override {
        return !ended_;
    }
    uint64_t stub_id() const override {
        return id_;
    }

   private:
    template <class F>
    void with(F&& f) {
        auto& r = otel_stub::recorder();
        std::lock_guard<std::mutex> l(r.m);
        if (auto it = r.spans.find(id_); it != r.spans.end()) {
            f(it->second);
        }
    }
    uint64_t id_ = 0;
    bool ended_ = false;
};

class Scope {
   public:
    explicit Scope(std::shared_ptr<Span> s) noexcept {
        stub_active().push_back(std::move(s));
        depth_ = stub_active().size();
    }
    Scope(Scope&& o) noexcept : depth_(std::exchange(o.depth_, 0)) {}
    Scope(const Scope&) = delete;
    Scope& operator=(const Scope&) = delete;
    ~Scope() {
        if (depth_ && stub_active().size() >= depth_) {
            stub_active().resize(depth_ - 1);
        }
    }

   private:
    size_t depth_ = 0;
};

class Tracer {
   public:
    virtual ~Tracer() = default;
    virtual std::shared_ptr<Span> StartSpan(std::string_view, const StartSpanOptions& = {}) noexcept {
        return std::make_shared<Span>();
    }
    std::shared_ptr<Span> StartSpan(std::string_view n, AttrList attrs,
                                    const StartSpanOptions& o = {}) noexcept {
        auto s = StartSpan(n, o);
        for (auto& [k, v] : attrs) {
            s->SetAttribute(k, v);
        }
        return s;
    }
    static Scope WithActiveSpan(std::shared_ptr<Span>& s) noexcept {
        return Scope{s};
    }
    static std::shared_ptr<Span> GetCurrentSpan() noexcept {
        if (stub_active().empty()) {
            return std::make_shared<Span>();
        }
        return stub_active().back();
    }
};
class RecordingTracer : public Tracer {
   public:
    std::shared_ptr<Span> StartSpan(std::string_view n, const StartSpanOptions& = {}) noexcept override {
        return std::make_shared<RecordingSpan>(n, Tracer::GetCurrentSpan()->stub_id());
    }
};
class NoopTracer : public Tracer {};

class TracerProvider {
   public:
    virtual ~TracerProvider() = default;
    virtual std::shared_ptr<Tracer> GetTracer(std::string_view, std::string_view = "",
                                              std::string_view = "") noexcept {
        return std::make_shared<NoopTracer>();
    }
};
class NoopTracerProvider : public TracerProvider {};
class RecordingTracerProvider : public TracerProvider {
   public:
    std::shared_ptr<Tracer> GetTracer(std::string_view, std::string_view = "",
                                      std::string_view = "") noexcept override {
        return tracer_;
    }

   private:
    std::shared_ptr<Tracer> tracer_ = std::make_shared<RecordingTracer>();
};

class Provider {
   public:
    static std::shared_ptr<TracerProvider> GetTracerProvider() noexcept {
        return slot();
    }
    static void SetTracerProvider(const std::shared_ptr<TracerProvider>& p) noexcept {
        slot() = p;
    }

   private:
    static std::shared_ptr<TracerProvider>& slot() {
        static auto* p = new std::shared_ptr<TracerProvider>(std::make_shared<NoopTracerProvider>());
        return *p;
    }
};
inline std::shared_ptr<Span> GetSpan() {
    return Tracer::GetCurrentSpan();
}
}  // namespace trace

namespace sdk {
namespace resource {
using ResourceAttributes = std::initializer_list<std::pair<std::string_view, common::AttributeValue>>;
class Resource {
   public:
    static Resource Create(ResourceAttributes) {
        return {};
    }
};
}  // namespace resource
namespace trace {
class SpanExporter {};
class SpanProcessor {};
struct BatchSpanProcessorOptions {
    size_t max_queue_size = 2048;
    std::chrono::milliseconds schedule_delay_millis{5000};
    size_t max_export_batch_size = 512;
};
struct SimpleSpanProcessorFactory {
    static std::unique_ptr<SpanProcessor> Create(std::unique_ptr<SpanExporter>&&) {
        return std::make_unique<SpanProcessor>();
    }
};
struct BatchSpanProcessorFactory {
    static std::unique_ptr<SpanProcessor> Create(std::unique_ptr<SpanExporter>&&,
                                                 const BatchSpanProcessorOptions& = {}) {
        return std::make_unique<SpanProcessor>();
    }
};
struct TracerProviderFactory {
    static std::unique_ptr<opentelemetry::trace::TracerProvider> Create(
        std::unique_ptr<SpanProcessor>&&, resource::Resource = {}) {
        return std::make_unique<opentelemetry::trace::RecordingTracerProvider>();
    }
};
}  // namespace trace
}  // namespace sdk
namespace exporter {
namespace otlp {
struct OtlpHttpExporterOptions {
    std::string url = "http://localhost:4318/v1/traces";
};
struct OtlpHttpExporterFactory {
    static std::unique_ptr<sdk::trace::SpanExporter> Create() {
        return std::make_unique<sdk::trace::SpanExporter>();
    }
    static std::unique_ptr<sdk::trace::SpanExporter> Create(const OtlpHttpExporterOptions&) {
        return std::make_unique<sdk::trace::SpanExporter>();
    }
};
}  // namespace otlp
}  // namespace exporter
}  // namespace opentelemetry
