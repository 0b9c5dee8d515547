// std::chrono::steady_clock on a virtual time line (link with
// -Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv). Off, it is the real clock.
#pragma once
#include <chrono>

namespace vclock {
inline bool on = false;
inline std::chrono::nanoseconds now{};  // since the clock's epoch
inline void advance(std::chrono::nanoseconds d) {
    now += d;
}
}  // namespace vclock

extern "C" {
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    if (vclock::on) {
        return std::chrono::steady_clock::time_point{vclock::now};
    }
    return __real__ZNSt6chrono3_V212steady_clock3nowEv();
}
}
