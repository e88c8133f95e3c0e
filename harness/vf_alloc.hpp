// Replaces global new/delete: poison-fills fresh memory, keeps a live-block
// ledger (for leak / double release / exactness checks), injects failures.
// Include in exactly one TU of a harness.
#ifndef VF_ALLOC_HPP
#define VF_ALLOC_HPP
#include "vf.hpp"
#include <new>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstddef>

namespace vf {
struct AllocState {
    // failure injection: when armed, allocation number `fail_at` (counted from
    // arming) throws std::bad_alloc
    bool armed = false;
    long counter = 0, fail_at = -1;
    long min_size = 0;
    bool fired = false;
    // ledger
    unsigned long live_blocks = 0, live_bytes = 0, total_allocs = 0, total_frees = 0;
    unsigned long counted_blocks = 0; // live blocks not made by the monitor itself
    // recording of the last request
    std::size_t last_size = 0; void* last_ptr = 0;
    std::size_t limit = std::size_t(1) << 40;
};
inline AllocState& alloc_state() { static AllocState s; return s; }
inline void arm_failure(long nth, long min_size = 0) { AllocState& a = alloc_state(); a.armed = true; a.counter = 0; a.fail_at = nth; a.fired = false; a.min_size = min_size; }
inline bool disarm_failure() { AllocState& a = alloc_state(); a.armed = false; return a.fired; }
}

static void* vf_alloc(std::size_t n) {
    vf::AllocState& a = vf::alloc_state();
    if (a.armed && long(n) >= a.min_size) {
        if (a.counter++ == a.fail_at) { a.fired = true; throw std::bad_alloc(); }
    }
    if (n > a.limit) throw std::bad_alloc();
    // header of 16 bytes holds the size
    char* p = static_cast<char*>(std::malloc(n + 16));
    if (!p) throw std::bad_alloc();
    *reinterpret_cast<std::size_t*>(p) = n;
    bool counted = !vf::quiet();
    *reinterpret_cast<std::size_t*>(p + 8) = 0x5AFEB10C5AFEB100ull + counted;
    if (counted) ++a.counted_blocks;
    if (n <= (std::size_t(1) << 24)) std::memset(p + 16, 0xA5, n);
    ++a.live_blocks; a.live_bytes += n; ++a.total_allocs;
    a.last_size = n; a.last_ptr = p + 16;
    return p + 16;
}
static void vf_free(void* q, std::size_t given, bool sized) {
    if (!q) return;
    vf::AllocState& a = vf::alloc_state();
    char* p = static_cast<char*>(q) - 16;
    std::size_t magic = *reinterpret_cast<std::size_t*>(p + 8);
    if ((magic & ~std::size_t(1)) != 0x5AFEB10C5AFEB100ull) {
        std::fprintf(stderr, "VF-FATAL key=heap:release-of-non-block release of a pointer that is not a live block\n");
        std::abort();
    }
    std::size_t n = *reinterpret_cast<std::size_t*>(p);
    if (sized && given != n) {
        std::fprintf(stderr, "VF-FATAL key=heap:size-mismatch block of %zu bytes released with size %zu\n", n, given);
        std::abort();
    }
    *reinterpret_cast<std::size_t*>(p + 8) = 0xDEADDEADDEADDEADull;
    if (magic & 1) --a.counted_blocks;
    --a.live_blocks; a.live_bytes -= n; ++a.total_frees;
    std::free(p);
}
void* operator new(std::size_t n) { return vf_alloc(n); }
void* operator new[](std::size_t n) { return vf_alloc(n); }
void operator delete(void* p) noexcept { vf_free(p, 0, false); }
void operator delete[](void* p) noexcept { vf_free(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { vf_free(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { vf_free(p, n, true); }
#endif
