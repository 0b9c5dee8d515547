// Memory accounting: does repeating a history leave more memory allocated every single time?
#pragma once
#include <sanitizer/allocator_interface.h>

#include "pbt.h"

namespace leaks {
inline long live = 0;
inline void install() {
    static const bool once = [] {
        __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { live++; },
                                                  [](const volatile void* p) { live -= p != nullptr; });
        return true;
    }();
    (void)once;
}
// Runs what `c` has just run again. Caches, lazily initialised tables and the like may stay after the
// first times, but growth that is there in each of twenty repetitions is a leak.
template <class F>
void repeat(pbt::Case& c, F&& body) {
    install();
    if (c.out_len == 0 || c.out_len >= c.out_cap) {
        return;
    }
    const std::vector<uint64_t> tape(c.out, c.out + c.out_len);
    long growth = 0;
    for (int i = 0; i < 20; i++) {
        const long before = live;
        try {
            pbt::Case k;
            k.in = tape;
            k.zero_fill = true;
            k.seed(1);
            body(k);
        } catch (const pbt::Failure&) {
            return;  // judged when it was run for the first time
        }
        growth = live - before;
        if (i > 0 && growth <= 0) {
            return;
        }
    }
    c.fail(std::format("{} more blocks of memory stay allocated each time this history is repeated", growth));
}
}  // namespace leaks
