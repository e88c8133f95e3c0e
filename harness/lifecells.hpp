#ifndef VF_LIFECELLS_HPP
#define VF_LIFECELLS_HPP
#include <climits>
#include "lifetime.hpp"
#include <libflatarray/flat_array.hpp>
#define LIFE_CELL(NAME, ...)                                                    \
    struct NAME {                                                               \
        struct API : __VA_ARGS__;                                               \
        life::Obj<1> a; int i; life::Obj<2> b[3]; char c; life::Obj<3> d;       \
        NAME(long v = 0) : a(v), i(int(v)), c(char(v)), d(-v) { for (int k = 0; k < 3; ++k) b[k].value = v * 10 + k; } \
        NAME(long v, int w) : a(v), i(w), c(char(v)), d(-v) { for (int k = 0; k < 3; ++k) b[k].value = v * 10 + k; } \
        bool is(long v) const { return a.get() == v && i == int(v) && b[0].get() == v * 10 && b[1].get() == v * 10 + 1 && b[2].get() == v * 10 + 2 && c == char(v) && d.get() == -v; } \
    };                                                                          \
    LIBFLATARRAY_REGISTER_SOA(NAME, ((life::Obj<1>)(a))((int)(i))((life::Obj<2>)(b)(3))((char)(c))((life::Obj<3>)(d)))
LIFE_CELL(LG, public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((4)(12)(20), (3)(6), (2)(5)) })
LIFE_CELL(LU, public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((3)(6)(9)) })
LIFE_CELL(LV, public LibFlatArray::api_traits::has_default_1d_sizes {})
// value-initialised members of default slots: a fresh slot is LG(0) except for b[k]
template<class C> bool fresh(const C& c) { return c.a.get() == 0 && c.i == 0 && c.b[0].get() == 0 && c.b[1].get() == 0 && c.b[2].get() == 0 && c.c == 0 && c.d.get() == 0; }
template<class C> bool matches(const C& c, long v) { return v == LONG_MIN ? fresh(c) : c.is(v); }
#endif
