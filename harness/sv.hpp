// Common parts of the short_vec harnesses.
#ifndef VF_SV_HPP
#define VF_SV_HPP
#include "vf.hpp"
#include <climits>
#include <cmath>
#include <limits>
#include <type_traits>
#include <libflatarray/flat_array.hpp>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>
using namespace LibFlatArray;
#ifndef VF_ISA
#define VF_ISA "?"
#endif
template<class T> inline const char* tn();
template<> inline const char* tn<float>() { return "float"; }
template<> inline const char* tn<double>() { return "double"; }
template<> inline const char* tn<int>() { return "int"; }
template<class T, int N> inline std::string vk() { return std::string(tn<T>()) + "x" + std::to_string(N); }

template<class T> inline bool same_bits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> inline bool same_val(T a, T b) { return same_bits(a, b) || (a != a && b != b); }
template<class T, class V> inline void lanes(const V& v, T* out) { v.store(out); }

// moderate: exponents within +-30 (products, quotients and squares stay normal)
template<class T> inline T moderate(vf::Rng& r) {
    if (r.chance(1, 10)) return T(r.range(-4, 4));
    T m = r.chance(1, 12) ? T(1) : T(1 + r.unit()); if (r.chance(1, 2)) m = -m;
    return T(std::ldexp(double(m), int(r.range(-30, 30))));
}
template<> inline int moderate<int>(vf::Rng& r) { switch (r.below(5)) { case 0: return int(r.range(-9, 9)); case 4: { int v = int(1u << r.below(31)); if (r.chance(1, 3)) v -= 1; else if (r.chance(1, 3)) v = v == 1 << 30 ? v : v + 1; return r.chance(1, 3) ? -v : v; } case 1: return int(r.range(-40000, 40000)); default: return int(r.next() >> r.below(32)); } }
// any bit pattern, special values likely
template<class T> inline T hostile(vf::Rng& r) {
    typedef std::numeric_limits<T> L;
    switch (r.below(14)) {
    case 0: return T(0); case 1: return -T(0); case 2: return L::infinity(); case 3: return -L::infinity(); case 4: return L::quiet_NaN();
    case 5: return L::denorm_min() * T(r.range(1, 1000)); case 6: return -L::min(); case 7: return L::max(); case 8: return T(1);
    case 9: { T v = L::quiet_NaN(); unsigned char* p = (unsigned char*)&v; p[0] = (unsigned char)r.next(); if (r.chance(1, 2)) v = -v; return v; }
    default: return moderate<T>(r);
    }
}
template<> inline int hostile<int>(vf::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return INT_MIN; case 2: return INT_MAX; case 3: return -1; case 4: return r.chance(1, 2) ? moderate<int>(r) : int(r.next()); default: return int(r.next()); } }

template<class T> inline std::string show(const T* a, int n) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < n; ++i) o << (i ? "," : "") << a[i]; o << "]"; return o.str(); }

#define VF_WIDTHS(F, T) F<T, 1>(); F<T, 2>(); F<T, 4>(); F<T, 8>(); F<T, 16>(); F<T, 32>();
#endif
