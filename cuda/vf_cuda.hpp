// Executes CUDA host and device code on the CPU with separate address classes.
// Device memory is only accessible while a kernel or a transfer runs; memory in
// the host arena is only accessible while no kernel runs. Force-included.
#ifndef VF_CUDA_HPP
#define VF_CUDA_HPP
#include "vf.hpp"
#include <sys/mman.h>
#include <deque>
#include <tuple>
#include <utility>
#include <functional>
#define __global__
#define __host__
#define __device__
#define __shared__ static
#define __constant__
#define __forceinline__ inline
#define __launch_bounds__(...)
struct dim3 { unsigned x, y, z; dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {} };
struct uint3 { unsigned x, y, z; };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9 };
typedef void* cudaStream_t;
static uint3 threadIdx, blockIdx; static dim3 blockDim, gridDim;

namespace vf_cuda {
struct Block { char *map; std::size_t len; char *p; std::size_t n; };
struct Emu {
    std::map<char*, Block> live; std::deque<std::pair<char*, std::size_t> > grave;
    bool device = false; cudaError_t error = cudaSuccess;
    char *arena = 0; std::size_t arena_len = std::size_t(96) << 20, arena_used = 0, arena_high = 0;
    unsigned long launches = 0, threads = 0, copies[5] = {0, 0, 0, 0, 0}, bytes = 0, allocs = 0, frees = 0;
    vf::Rng rng; std::string ctx;
    std::size_t last_threads = 0;
};
inline Emu& emu() { static Emu e; return e; }
static const std::size_t PAGE = 4096;
inline std::size_t up(std::size_t n) { return (n + PAGE - 1) / PAGE * PAGE; }
inline void bad(const char* key, const std::string& m) { vf::violation(std::string("device:") + key, m); }
inline void protect_device(int prot) { for (auto& b : emu().live) if (b.second.len) mprotect(b.second.map + PAGE, b.second.len - 2 * PAGE, prot); }
inline void protect_host(int prot) { if (emu().arena_high) mprotect(emu().arena, up(emu().arena_high), prot); }
inline void enter() { emu().device = true; protect_host(PROT_NONE); protect_device(PROT_READ | PROT_WRITE); }
inline void leave() { protect_device(PROT_NONE); protect_host(PROT_READ | PROT_WRITE); emu().device = false; }
// memory which plays the role of ordinary host memory
inline char* host(std::size_t n) {
    Emu& e = emu(); if (!e.arena) e.arena = (char*)mmap(0, e.arena_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    n = (n + 63) / 64 * 64 + 64; if (e.arena_used + n > e.arena_len) { std::fprintf(stderr, "host arena exhausted\n"); std::abort(); }
    char* p = e.arena + e.arena_used; e.arena_used += n; if (e.arena_used > e.arena_high) e.arena_high = e.arena_used; std::memset(p, 0xB6, n); return p;
}
inline void host_reset() { emu().arena_used = 0; }
inline Block* find(const void* q, std::size_t n) { // the live block which contains [q, q + n)
    auto& m = emu().live; auto i = m.upper_bound((char*)q); if (i == m.begin()) return 0; --i;
    return (char*)q + n <= i->second.p + i->second.n ? &i->second : 0;
}
inline bool is_device(const void* q) { for (auto& b : emu().live) if ((char*)q >= b.second.map && (char*)q < b.second.map + b.second.len) return true; for (auto& g : emu().grave) if ((char*)q >= g.first && (char*)q < g.first + g.second) return true; return false; }
inline void canary(const Block& b) { for (char* c = b.p + b.n; c < b.map + b.len - PAGE; ++c) if (*c != char(0xD3)) { bad("memory-behind-a-block", "device memory behind an allocation was overwritten"); return; } for (char* c = b.map + PAGE; c < b.p; ++c) if (*c != char(0xD3)) { bad("memory-before-a-block", "device memory in front of an allocation was overwritten"); return; } }
struct config { dim3 g, b; config(dim3 g, dim3 b, std::size_t = 0, cudaStream_t = 0) : g(g), b(b) {} };
template<class F, class T, std::size_t... I> inline void call(F& f, T& t, std::index_sequence<I...>) { f(std::get<I>(t)...); }
template<class F, class... A> inline void launch(config c, std::tuple<A...> args, F f) {
    Emu& e = emu(); if (e.device) bad("nested-launch", "kernel launched from device code");
    std::size_t per = std::size_t(c.b.x) * c.b.y * c.b.z, blocks = std::size_t(c.g.x) * c.g.y * c.g.z;
    if (per == 0 || per > 1024 || c.b.z > 64 || blocks == 0 || c.g.y > 65535 || c.g.z > 65535 || c.g.x > 2147483647u) { e.error = cudaErrorInvalidConfiguration; bad("launch-configuration", VF_STR("invalid launch of " << c.g.x << "x" << c.g.y << "x" << c.g.z << " blocks of " << c.b.x << "x" << c.b.y << "x" << c.b.z << " threads")); return; }
    ++e.launches; e.threads += per * blocks; e.last_threads = per * blocks; gridDim = c.g; blockDim = c.b;
    std::size_t n = per * blocks, step = 1, at = 0; // the order of threads is arbitrary
    switch (e.rng.below(3)) { case 0: break; case 1: step = n - 1; at = n - 1; break; default: at = e.rng.below(n); step = 1 + e.rng.below(n); for (;; ++step) { std::size_t a = n, b = step; while (b) { std::size_t t = a % b; a = b; b = t; } if (a == 1) break; } }
    if (step == 0) step = 1;
    enter();
    for (std::size_t i = 0; i < n; ++i, at = (at + step) % n) {
        std::size_t t = at % per, k = at / per;
        threadIdx.x = t % c.b.x; threadIdx.y = t / c.b.x % c.b.y; threadIdx.z = t / c.b.x / c.b.y; blockIdx.x = k % c.g.x; blockIdx.y = k / c.g.x % c.g.y; blockIdx.z = k / c.g.x / c.g.y;
        std::tuple<A...> own(args); call(f, own, std::index_sequence_for<A...>());
    }
    for (auto& b : e.live) if (b.second.len) canary(b.second);
    leave();
}
} // namespace vf_cuda
inline cudaError_t cudaMalloc_(void** out, std::size_t n) {
    using namespace vf_cuda; Emu& e = emu(); ++e.allocs; if (n == 0) { *out = 0; return cudaSuccess; }
    if (n > (std::size_t(1) << 32)) { e.error = cudaErrorMemoryAllocation; return e.error; }
    Block b; b.n = n; std::size_t body = up(n + 255 > PAGE ? n : n); b.len = body + 2 * PAGE; b.map = (char*)mmap(0, b.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(b.map + PAGE, body, PROT_READ | PROT_WRITE); std::memset(b.map + PAGE, 0xD3, body);
    b.p = b.map + PAGE + (body - n) / 256 * 256; // as close to the guard page as alignment permits
    std::memset(b.p, int(e.rng.below(2) ? 0xC7 : 0x39), n); mprotect(b.map + PAGE, body, PROT_NONE); e.live[b.p] = b; *out = b.p; return cudaSuccess;
}
template<class T> inline cudaError_t cudaMalloc(T** out, std::size_t n) { return cudaMalloc_((void**)(void*)out, n); }
inline cudaError_t cudaFree(void* p) {
    using namespace vf_cuda; Emu& e = emu(); if (!p) return cudaSuccess; ++e.frees; auto i = e.live.find((char*)p);
    if (i == e.live.end()) { bad("invalid-free", "cudaFree of something that is not a live device allocation"); return cudaErrorInvalidValue; }
    mprotect(i->second.map + PAGE, i->second.len - 2 * PAGE, PROT_READ | PROT_WRITE); canary(i->second); mprotect(i->second.map, i->second.len, PROT_NONE);
    madvise(i->second.map, i->second.len, MADV_DONTNEED); e.grave.push_back(std::make_pair(i->second.map, i->second.len)); e.live.erase(i);
    if (e.grave.size() > 3000) { munmap(e.grave.front().first, e.grave.front().second); e.grave.pop_front(); } return cudaSuccess;
}
inline cudaError_t cudaMemcpy(void* to, const void* from, std::size_t n, cudaMemcpyKind k) {
    using namespace vf_cuda; Emu& e = emu(); if (e.device) bad("transfer-in-kernel", "cudaMemcpy from device code"); if (n == 0) return cudaSuccess;
    bool dt = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice, df = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice; if (k == cudaMemcpyDefault) { dt = is_device(to); df = is_device(from); }
    if (dt ? !find(to, n) : is_device(to)) { bad("transfer-target", VF_STR("transfer of " << n << " bytes of kind " << k << (dt ? " to something which is not inside a live device allocation" : " writes device memory as if it were host memory"))); return cudaErrorInvalidValue; }
    if (df ? !find(from, n) : is_device(from)) { bad("transfer-source", VF_STR("transfer of " << n << " bytes of kind " << k << (df ? " from something which is not inside a live device allocation" : " reads device memory as if it were host memory"))); return cudaErrorInvalidValue; }
    protect_device(PROT_READ | PROT_WRITE); std::memmove(to, from, n); protect_device(PROT_NONE); ++e.copies[k]; e.bytes += n; return cudaSuccess;
}
inline cudaError_t cudaMemcpyAsync(void* to, const void* from, std::size_t n, cudaMemcpyKind k, cudaStream_t = 0) { return cudaMemcpy(to, from, n, k); }
inline cudaError_t cudaMemset(void* to, int v, std::size_t n) { using namespace vf_cuda; if (n == 0) return cudaSuccess; if (!find(to, n)) { bad("transfer-target", "cudaMemset outside of device allocations"); return cudaErrorInvalidValue; } protect_device(PROT_READ | PROT_WRITE); std::memset(to, v, n); protect_device(PROT_NONE); return cudaSuccess; }
inline cudaError_t cudaGetLastError() { cudaError_t r = vf_cuda::emu().error; vf_cuda::emu().error = cudaSuccess; return r; }
inline cudaError_t cudaPeekAtLastError() { return vf_cuda::emu().error; }
inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline const char* cudaGetErrorString(cudaError_t) { return "emulated error"; }
inline void __syncthreads() {}
#endif
