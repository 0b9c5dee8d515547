// The wall clock on a virtual time line (link with -Wl,--wrap= for each name
// below). Off, it is the real clock. Every reading moves it on by `step`.
#pragma once
#include <sys/time.h>

#include <chrono>
#include <ctime>

namespace vwall {
inline bool on = false;
inline std::chrono::nanoseconds now{};  // since 1970
inline std::chrono::nanoseconds step{};
inline std::chrono::nanoseconds read() {
    return now += step;
}
inline timespec read_timespec() {
    const auto t = read().count();
    return {static_cast<time_t>(t / 1000000000), static_cast<long>(t % 1000000000)};
}
}  // namespace vwall

extern "C" {
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
    return vwall::on ? std::chrono::system_clock::time_point{vwall::read()} : __real__ZNSt6chrono3_V212system_clock3nowEv();
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
    if (!vwall::on) {
        return __real_time(t);
    }
    const time_t r = vwall::read_timespec().tv_sec;
    if (t) {
        *t = r;
    }
    return r;
}
int __real_gettimeofday(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) {
    if (!vwall::on) {
        return __real_gettimeofday(t, z);
    }
    const auto s = vwall::read_timespec();
    *t = {s.tv_sec, static_cast<suseconds_t>(s.tv_nsec / 1000)};
    return 0;
}
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t id, timespec* t) {
    if (!vwall::on || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) {
        return __real_clock_gettime(id, t);
    }
    *t = vwall::read_timespec();
    return 0;
}
int __real_timespec_get(timespec*, int);
int __wrap_timespec_get(timespec* t, int base) {
    if (!vwall::on || base != TIME_UTC) {
        return __real_timespec_get(t, base);
    }
    *t = vwall::read_timespec();
    return base;
}
}
