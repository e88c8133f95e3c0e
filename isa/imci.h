// Executes the Xeon Phi (IMCI) intrinsics which AVX-512 dropped.
#ifndef VF_IMCI_H
#define VF_IMCI_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <immintrin.h>
namespace vf_imci {
template<class V, class E> inline V lo(V v, const void* p) { unsigned char b[64]; std::memcpy(b, &v, 64); std::size_t n = 64 - std::uintptr_t(p) % 64; std::memcpy(b, p, n); std::memcpy(&v, b, 64); return v; }
template<class V, class E> inline V hi(V v, const void* p) { unsigned char b[64]; std::memcpy(b, &v, 64); std::size_t n = std::uintptr_t(p) % 64; std::memcpy(b + 64 - n, (const char*)p - n, n); std::memcpy(&v, b, 64); return v; }
template<class V> inline void slo(void* p, V v) { std::memcpy(p, &v, 64 - std::uintptr_t(p) % 64); }
template<class V> inline void shi(void* p, V v) { unsigned char b[64]; std::memcpy(b, &v, 64); std::size_t n = std::uintptr_t(p) % 64; std::memcpy((char*)p - n, b + 64 - n, n); }
}
static inline __m512d _mm512_loadunpacklo_pd(__m512d v, const void* p) { return vf_imci::lo<__m512d, double>(v, p); }
static inline __m512d _mm512_loadunpackhi_pd(__m512d v, const void* p) { return vf_imci::hi<__m512d, double>(v, p); }
static inline __m512 _mm512_loadunpacklo_ps(__m512 v, const void* p) { return vf_imci::lo<__m512, float>(v, p); }
static inline __m512 _mm512_loadunpackhi_ps(__m512 v, const void* p) { return vf_imci::hi<__m512, float>(v, p); }
static inline __m512i _mm512_loadunpacklo_epi32(__m512i v, const void* p) { return vf_imci::lo<__m512i, int>(v, p); }
static inline __m512i _mm512_loadunpackhi_epi32(__m512i v, const void* p) { return vf_imci::hi<__m512i, int>(v, p); }
static inline void _mm512_packstorelo_pd(void* p, __m512d v) { vf_imci::slo(p, v); }
static inline void _mm512_packstorehi_pd(void* p, __m512d v) { vf_imci::shi(p, v); }
static inline void _mm512_packstorelo_ps(void* p, __m512 v) { vf_imci::slo(p, v); }
static inline void _mm512_packstorehi_ps(void* p, __m512 v) { vf_imci::shi(p, v); }
#define _mm512_i32logather_pd(i, p, s) _mm512_i32gather_pd(_mm512_castsi512_si256(i), p, s)
#define _mm512_i32loscatter_pd(p, i, v, s) _mm512_i32scatter_pd(p, _mm512_castsi512_si256(i), v, s)
#define _mm512_storenr_pd(p, v) _mm512_store_pd(p, v)
#define _mm512_storenr_ps(p, v) _mm512_store_ps(p, v)
#define _mm512_permute4f128_epi32(v, m) _mm512_shuffle_i32x4(v, v, m)
static inline __m512 _mm512_rcp23_ps(__m512 a) { return _mm512_div_ps(_mm512_set1_ps(1.f), a); }
static inline __m512 _mm512_rsqrt23_ps(__m512 a) { return _mm512_div_ps(_mm512_set1_ps(1.f), _mm512_sqrt_ps(a)); }
#endif
