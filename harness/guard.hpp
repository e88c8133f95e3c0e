// Buffers between unmapped pages: vector intrinsics and inline assembly are not
// instrumented by the sanitizers, a stray access faults here instead.
#ifndef VF_GUARD_HPP
#define VF_GUARD_HPP
#include <sys/mman.h>
#include "vf.hpp"
struct Guard {
    char* map; std::size_t pages; char* b; char* e; // usable [b, e)
    explicit Guard(std::size_t bytes) {
        pages = (bytes + 4095) / 4096;
        map = (char*)mmap(0, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED || mprotect(map + 4096, pages * 4096, PROT_READ | PROT_WRITE)) { std::fprintf(stderr, "mmap failed\n"); std::_Exit(5); }
        b = map + 4096; e = b + pages * 4096;
    }
    ~Guard() { munmap(map, (pages + 2) * 4096); }
    void fill(vf::Rng& r) { for (char* p = b; p < e; p += 8) { uint64_t v = r.next(); std::memcpy(p, &v, 8); } }
    std::vector<char> copy() const { return std::vector<char>(b, e); }
};
#endif
