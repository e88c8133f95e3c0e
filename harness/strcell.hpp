// a cell whose members own heap memory (array member included)
#ifndef VF_STRCELL_HPP
#define VF_STRCELL_HPP
#include "cells.hpp"
struct Str {
    struct API : public LibFlatArray::api_traits::has_custom_sizes,
                 public LibFlatArray::api_traits::has_no_asymmetric_dual_callback {
        LIBFLATARRAY_CUSTOM_SIZES((8)(16)(40), (4)(6)(10), (2)(3)(7))
    };
    std::string s; int i; std::vector<int> v[2]; short h;
    Str() : i(0), h(0) {}
};
LIBFLATARRAY_REGISTER_SOA(Str, ((std::string)(s))((int)(i))((std::vector<int>)(v)(2))((short)(h)))
// the same, selectable from the default 1D list (for soa_vector) 
struct StrV {
    struct API : public LibFlatArray::api_traits::has_default_1d_sizes {};
    std::string s; int i; std::vector<int> v[2]; short h;
    StrV() : i(0), h(0) {}
    StrV(const std::string& s, int i) : s(s), i(i), h(0) {}
};
LIBFLATARRAY_REGISTER_SOA(StrV, ((std::string)(s))((int)(i))((std::vector<int>)(v)(2))((short)(h)))

template<class T> struct StrDesc {
    static T random(vf::Rng& r) {
        T c; std::size_t n = r.below(4) == 0 ? r.below(60) : r.below(12);
        for (std::size_t i = 0; i < n; ++i) c.s += char('a' + r.below(26));
        c.i = int(r.next()); c.h = short(r.next());
        for (int k = 0; k < 2; ++k) { std::size_t m = r.below(5); for (std::size_t i = 0; i < m; ++i) c.v[k].push_back(int(r.next())); }
        return c;
    }
    static T zero() { return T(); }
    static const char* diff(const T& a, const T& b) { if (a.s != b.s) return "s"; if (a.i != b.i) return "i"; if (a.v[0] != b.v[0]) return "v[0]"; if (a.v[1] != b.v[1]) return "v[1]"; if (a.h != b.h) return "h"; return 0; }
    static const std::size_t SIZE = sizeof(std::string) + sizeof(int) + 2 * sizeof(std::vector<int>) + sizeof(short);
};
template<> struct Desc<Str> : StrDesc<Str> { static const char* name() { return "Str"; } };
template<> struct Desc<StrV> : StrDesc<StrV> { static const char* name() { return "StrV"; } };
#endif
