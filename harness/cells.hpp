// Cell types used by the container harnesses, each with a Desc<> that knows how
// to make random values, compare, and enumerate the members of an accessor.
#ifndef VF_CELLS_HPP
#define VF_CELLS_HPP
#include "vf.hpp"
#include <libflatarray/flat_array.hpp>
#include <cmath>

template<class T> struct Desc;

template<class V> inline V rnd(vf::Rng& r) { return V(r.next()); }
template<> inline double rnd<double>(vf::Rng& r) { return double(long(r.next())) * std::ldexp(1.0, int(r.range(-80, 40))); }
template<> inline float rnd<float>(vf::Rng& r) { return float(int(r.next())) * float(std::ldexp(1.0, int(r.range(-30, 20)))); }
template<> inline bool rnd<bool>(vf::Rng& r) { return r.below(2); }

template<class V> inline bool same(const V& a, const V& b) { return a == b; }
inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; }

// ---- member list helpers: one X-macro per cell --------------------------------
// S(type, name): scalar member, A(type, name, n): array member

#define VF_DECL_S(t, n) t n;
#define VF_DECL_A(t, n, k) t n[k];
#define VF_RND_S(t, n) c.n = rnd<t>(r);
#define VF_RND_A(t, n, k) for (int _i = 0; _i < k; ++_i) c.n[_i] = rnd<t>(r);
#define VF_ZERO_S(t, n) c.n = (t)0;
#define VF_ZERO_A(t, n, k) for (int _i = 0; _i < k; ++_i) c.n[_i] = (t)0;
#define VF_CMP_S(t, n) if (!same(a.n, b.n)) return #n;
#define VF_CMP_A(t, n, k) for (int _i = 0; _i < k; ++_i) if (!same(a.n[_i], b.n[_i])) return #n;
// f(member number, element, address, size)
#define VF_VIS_S(t, n) f(#n, _m++, 0, (const char*)&acc.n(), sizeof(t));
#define VF_VIS_A(t, n, k) for (int _i = 0; _i < k; ++_i) f(#n, _m, _i, (const char*)&(acc.n()[_i]), sizeof(t)); ++_m;
// raw image of a cell's member values, in registration order
#define VF_RAW_S(t, n) f(_m++, 0, (const char*)&c.n, sizeof(t));
#define VF_RAW_A(t, n, k) for (int _i = 0; _i < k; ++_i) f(_m, _i, (const char*)&c.n[_i], sizeof(t)); ++_m;
#define VF_SZ_S(t, n) + sizeof(t)
#define VF_SZ_A(t, n, k) + sizeof(t) * k
#define VF_NM_S(t, n) + 1
#define VF_NM_A(t, n, k) + 1
#define VF_REG_S(t, n) ((t)(n))
#define VF_REG_A(t, n, k) ((t)(n)(k))

#define VF_DESC(CELL, LIST)                                                     \
    template<> struct Desc<CELL> {                                              \
        static const char* name() { return #CELL; }                             \
        static CELL random(vf::Rng& r) { CELL c; LIST(VF_RND_S, VF_RND_A) return c; } \
        static CELL zero() { CELL c; LIST(VF_ZERO_S, VF_ZERO_A) return c; }     \
        static const char* diff(const CELL& a, const CELL& b) { LIST(VF_CMP_S, VF_CMP_A) return 0; } \
        template<class ACC, class F> static void visit(ACC&& acc, F f) { int _m = 0; LIST(VF_VIS_S, VF_VIS_A) (void)_m; } \
        template<class F> static void raw(const CELL& c, F f) { int _m = 0; LIST(VF_RAW_S, VF_RAW_A) (void)_m; } \
        static const std::size_t SIZE = 0 LIST(VF_SZ_S, VF_SZ_A);               \
        static const std::size_t MEMBERS = 0 LIST(VF_NM_S, VF_NM_A);            \
    };

// ---- cells with custom (small, non-cubic) sizes --------------------------------
// mixed scalar types; sizes differ per dimension
#define L_Mix(S, A) S(double, d) S(char, c) S(float, f) S(int, i) S(short, s) S(unsigned, u) S(long, l) S(bool, b)
struct Mix {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_no_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES((8)(16)(40), (4)(6)(10), (2)(3)(7))
    };
    L_Mix(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Mix, L_Mix)
LIBFLATARRAY_REGISTER_SOA(Mix, ((double)(d))((char)(c))((float)(f))((int)(i))((short)(s))((unsigned)(u))((long)(l))((bool)(b)))

// array members of several kinds, between scalars
#define L_Arr(S, A) A(float, a, 3) S(double, x) A(int, k, 2) S(unsigned char, q) A(double, w, 5) S(short, t)
struct Arr {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_no_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES((8)(24), (5)(8)(12), (3)(4)(9))
    };
    L_Arr(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Arr, L_Arr)
LIBFLATARRAY_REGISTER_SOA(Arr, ((float)(a)(3))((double)(x))((int)(k)(2))((unsigned char)(q))((double)(w)(5))((short)(t)))

// ---- default sizes ---------------------------------------------------------------
#define L_Def(S, A) S(double, x) S(float, y) A(char, z, 4) S(int, n)
struct Def { L_Def(VF_DECL_S, VF_DECL_A) };
VF_DESC(Def, L_Def)
LIBFLATARRAY_REGISTER_SOA(Def, ((double)(x))((float)(y))((char)(z)(4))((int)(n)))

// ---- 1D cell (particles) -------------------------------------------------------
#define L_Part(S, A) A(float, pos, 3) A(float, vel, 3) S(double, m) S(int, id)
struct Part {
    struct API : public LibFlatArray::api_traits::has_default_1d_sizes,
                 public LibFlatArray::api_traits::has_no_asymmetric_dual_callback {};
    L_Part(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Part, L_Part)
LIBFLATARRAY_REGISTER_SOA(Part, ((float)(pos)(3))((float)(vel)(3))((double)(m))((int)(id)))

// ---- 2D uniform custom ----------------------------------------------------------
#define L_Two(S, A) S(float, h) S(unsigned char, t) A(short, v, 2)
struct Two {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((8)(16)(24)(40))
    };
    L_Two(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Two, L_Two)
LIBFLATARRAY_REGISTER_SOA(Two, ((float)(h))((unsigned char)(t))((short)(v)(2)))

// ---- 3D uniform custom, single member --------------------------------------------
#define L_One(S, A) S(unsigned short, v)
struct One {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((4)(8)(12)(20))
    };
    L_One(VF_DECL_S, VF_DECL_A)
};
VF_DESC(One, L_One)
LIBFLATARRAY_REGISTER_SOA(One, ((unsigned short)(v)))

// ---- long rows, high columns, deep stacks: sizes beyond 8 and 16 bit counters -----
#define L_Big(S, A) A(char, c, 3) S(int, i) S(short, s)
struct Big {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES((20)(301)(70001), (2)(21)(300), (2)(19)(131))
    };
    L_Big(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Big, L_Big)
LIBFLATARRAY_REGISTER_SOA(Big, ((char)(c)(3))((int)(i))((short)(s)))
inline void big_dims(vf::Rng& r, long& x, long& y, long& z) {
    switch (r.below(8)) {
    case 0: x = r.pick(std::vector<long>{65535, 65536, 65537, 66000, 69999, 70001}); y = r.range(1, 2); z = 1; break;
    case 1: x = r.pick(std::vector<long>{32767, 32768, 40001}); y = 1; z = 1; break;
    case 2: x = r.range(1, 21); y = r.pick(std::vector<long>{127, 128, 129, 255, 256, 257, 299, 300}); z = r.range(1, 2); break;
    case 3: x = r.range(1, 20); y = r.range(1, 3); z = r.pick(std::vector<long>{127, 128, 129, 130, 131}); break;
    case 4: x = r.range(100, 301); y = r.range(1, 21); z = r.range(1, 3); break;
    case 5: x = r.pick(std::vector<long>{255, 256, 257, 301}); y = r.range(1, 3); z = r.range(1, 19); break;
    case 6: x = r.range(200, 3000); y = 1; z = 1; break;
    default: x = r.range(60, 140); y = r.range(1, 21); z = r.range(1, 5); break;
    }
}

// ---- storage of more than 2^31 cells and 2^32 bytes, of which only a few are used ---
// every length of every axis up to the second or third entry of Big's size lists, one per case
const uint64_t SWEEP = 301 + 300 + 131;
inline void sweep_dims(vf::Rng& r, uint64_t i, long& x, long& y, long& z) {
    i %= SWEEP;
    x = r.range(1, 2); y = r.range(1, 2); z = r.range(1, 2);
    if (i < 301) x = long(i) + 1; else if (i < 601) y = long(i) - 300; else z = long(i) - 600;
    if (r.chance(1, 4)) { if (i < 301) y = 3; else x = r.range(2, 20); }
}
#define L_Far(S, A) S(char, a) A(char, b, 2)
struct Far {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES((2100), (1100), (1000))
    };
    L_Far(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Far, L_Far)
LIBFLATARRAY_REGISTER_SOA(Far, ((char)(a))((char)(b)(2)))

// exact-size, poison-filled, unaligned-slack-free allocator for grids: every
// access past the storage hits a sanitizer redzone
struct TightLedger { long live = 0; long allocs = 0; std::map<char*, std::size_t> blocks; };
inline TightLedger& tight() { static TightLedger t; return t; }
template<typename T>
class tight_allocator {
public:
    typedef T value_type;
    T* allocate(std::size_t n) {
        void* p = 0;
        if (posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc();
        if (n <= (std::size_t(1) << 24)) std::memset(p, 0xA5, n);
        tight().blocks[(char*)p] = n; ++tight().live; ++tight().allocs;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) {
        if (!p) return;
        auto it = tight().blocks.find((char*)p);
        if (it == tight().blocks.end()) { vf::violation("allocator:release-of-unknown-block", "container released a block it did not own"); return; }
        if (it->second != n) vf::violation("allocator:size-mismatch", VF_STR("container released block of " << it->second << " bytes with size " << n));
        tight().blocks.erase(it); --tight().live;
        free(p);
    }
};
#endif
