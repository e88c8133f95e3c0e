// Executes the NEON intrinsics libflatarray uses on any CPU (estimates follow the ARM ARM's tables).
#ifndef VF_ARM_NEON_H
#define VF_ARM_NEON_H
#include <cstdint>
#include <cstring>
typedef float float32x4_t __attribute__((vector_size(16)));
typedef std::uint32_t uint32x4_t __attribute__((vector_size(16)));
namespace vf_neon {
inline std::uint32_t bits(float f) { std::uint32_t u; std::memcpy(&u, &f, 4); return u; }
inline float flt(std::uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }
inline float recpe(float f) {
    std::uint32_t u = bits(f), s = u & 0x80000000u; int e = int((u >> 23) & 255); std::uint32_t m = u & 0x7fffffu;
    if (e == 255) return m ? flt(u | 0x400000u) : flt(s);
    if (e == 0) return flt(s | 0x7f800000u);
    if (e >= 253) return flt(s);
    std::uint32_t a = 256 + (m >> 15); a = a * 2 + 1; std::uint32_t b = (1u << 19) / a, r = (b + 1) / 2;
    return flt(s | (std::uint32_t(253 - e) << 23) | ((r & 255) << 15));
}
inline float rsqrte(float f) {
    std::uint32_t u = bits(f), s = u & 0x80000000u; int e = int((u >> 23) & 255); std::uint32_t m = u & 0x7fffffu;
    if (e == 255 && m) return flt(u | 0x400000u);
    if (e == 0) return flt(s | 0x7f800000u);
    if (s) return flt(0x7fc00000u);
    if (e == 255) return 0.f;
    std::uint32_t a = (e & 1) ? 128 + (m >> 16) : 256 + (m >> 15);
    a = a < 256 ? a * 2 + 1 : (((a >> 1) << 1) + 1) * 2;
    std::uint32_t b = 512; while (std::uint64_t(a) * (b + 1) * (b + 1) < (1u << 28)) ++b;
    std::uint32_t r = (b + 1) / 2;
    return flt((std::uint32_t((380 - e) / 2) << 23) | ((r & 255) << 15));
}
inline bool odd(float a, float b) { return (a == 0 && b - b != 0 && b == b) || (b == 0 && a - a != 0 && a == a); }
}
#define VF_NEON_MAP(body) float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = body; return r;
#define VF_NEON_CMP(body) uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (body) ? 0xffffffffu : 0u; return r;
static inline float32x4_t vdupq_n_f32(float a) { VF_NEON_MAP(a) }
static inline uint32x4_t vdupq_n_u32(std::uint32_t a) { uint32x4_t r = {a, a, a, a}; return r; }
static inline float32x4_t vld1q_f32(const float* p) { float32x4_t r; std::memcpy(&r, p, 16); return r; }
static inline void vst1q_f32(float* p, float32x4_t a) { std::memcpy(p, &a, 16); }
static inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
static inline float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
static inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
static inline float32x4_t vrecpeq_f32(float32x4_t a) { VF_NEON_MAP(vf_neon::recpe(a[i])) }
static inline float32x4_t vrsqrteq_f32(float32x4_t a) { VF_NEON_MAP(vf_neon::rsqrte(a[i])) }
static inline float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { VF_NEON_MAP(vf_neon::odd(a[i], b[i]) ? 2.f : 2.f - a[i] * b[i]) }
static inline float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { VF_NEON_MAP(vf_neon::odd(a[i], b[i]) ? 1.5f : (3.f - a[i] * b[i]) * .5f) }
static inline uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(a[i] < b[i]) }
static inline uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(a[i] <= b[i]) }
static inline uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(a[i] == b[i]) }
static inline uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(a[i] > b[i]) }
static inline uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(a[i] >= b[i]) }
static inline uint32x4_t vcaleq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(__builtin_fabsf(a[i]) <= __builtin_fabsf(b[i])) }
static inline uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { VF_NEON_CMP(__builtin_fabsf(a[i]) > __builtin_fabsf(b[i])) }
static inline uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { VF_NEON_CMP(a[i] == b[i]) }
static inline uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
static inline uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
static inline uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
static inline uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { uint32x4_t r; std::memcpy(&r, &a, 16); return r; }
static inline float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { float32x4_t r; std::memcpy(&r, &a, 16); return r; }
static inline float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return vreinterpretq_f32_u32((m & vreinterpretq_u32_f32(a)) | (~m & vreinterpretq_u32_f32(b))); }
static inline float32x4_t vsqrtq_f32(float32x4_t a) { VF_NEON_MAP(__builtin_sqrtf(a[i])) }
static inline float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
#endif
