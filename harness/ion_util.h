// Small helpers shared by the harnesses that link the code under test.
#pragma once
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>

#include <cstring>
#include <memory>

#include "hpack/http_header.h"
#include "hpack_ref.h"
#include "pbt.h"

// a heap copy with no slack, so that reading one octet too far is a sanitizer report
class Exact {
   public:
    explicit Exact(std::span<const uint8_t> d) : p_(new uint8_t[d.size()]), n_(d.size()) {
        if (n_) {
            memcpy(p_.get(), d.data(), n_);
        }
    }
    std::span<const uint8_t> span() const {
        return {p_.get(), n_};
    }
    std::span<uint8_t> room() {
        return {p_.get(), n_};
    }
    const uint8_t* data() const {
        return p_.get();
    }

   private:
    std::unique_ptr<uint8_t[]> p_;
    size_t n_;
};

inline ref::Fields to_fields(const std::vector<ion::HttpHeader>& h) {
    ref::Fields f;
    for (auto& x : h) {
        f.emplace_back(x.name, x.value);
    }
    return f;
}
inline std::vector<ion::HttpHeader> to_headers(const ref::Fields& f) {
    std::vector<ion::HttpHeader> h;
    for (auto& x : f) {
        h.push_back({x.first, x.second});
    }
    return h;
}

// the default logger writes to stdout: replace it once per process
inline void quiet_logs(bool trace = false) {
    static bool done = false;
    static const bool debug = std::getenv("ION_VERIF_LOGS") != nullptr;
    if (debug) {
        spdlog::set_level(spdlog::level::trace);
        return;
    }
    if (!done) {
        done = true;
        spdlog::set_default_logger(
            std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>()));
        spdlog::set_level(spdlog::level::off);
    }
    static bool was = false;
    if (trace != was) {
        was = trace;
        spdlog::set_level(trace ? spdlog::level::trace : spdlog::level::off);
    }
}
