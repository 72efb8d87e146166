// Heap growth over repeated cycles. In the engine the live heap must be the same after each cycle; natively (replay
// of a counterexample) growth in each of three cycles counts, as Qt's own caches are part of that heap.
#pragma once
#include "env.h"
struct Leak {
    uint64_t h[8]; int n; Leak() : n(0) {}
    void mark() { env_purge(); h[n++ & 7] = vp_live_heap(); }
    bool grows() const { if (n < 4) return false; if (vp_engine()) return h[n - 1] > h[n - 2]; return h[n - 1] >= h[n - 2] + 16 && h[n - 2] >= h[n - 3] + 16 && h[n - 3] >= h[n - 4] + 16; }
};
