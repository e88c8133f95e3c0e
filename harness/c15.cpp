// C15: building and inspecting vectors.
#include "sv.hpp"
#include "guard.hpp"
#include <utility>
#ifdef __SSE2__
#include <immintrin.h>
#endif
template<class T, int N> struct mk {
    typedef short_vec<T, N> V;
    static std::string K(const std::string& w) { return vk<T, N>() + ":" + w; }
    static void is(const std::string& w, const V& v, const T* x) {
        T o[N]; v.store(o);
        for (int i = 0; i < N; ++i) vf::check_lazy(same_bits(o[i], x[i]), K(w), [&] { return VF_STR(w << ": lane " << i << " is " << o[i] << " instead of " << x[i] << "; " << vf::st().step); });
        vf::event("built_" + w, N);
    }
    template<std::size_t... I> static V list(const T* x, std::index_sequence<I...>) { return V({x[I]...}); }
    template<std::size_t... I> static V brace(const T* x, std::index_sequence<I...>) { V v = {x[I]...}; return v; }
    template<std::size_t> using Rep = T;
    // lane by lane constructor, where the type has one
    template<std::size_t... I> static typename std::enable_if<(N > 1) && std::is_constructible<V, Rep<I>...>::value>::type args(const T* x, std::index_sequence<I...>) { V v(x[I]...); is("lane-constructor", v, x); }
    static void args(const T*, ...) {}
    // from native registers, where the type has such a constructor
    template<class R, std::size_t> using RRep = R;
    template<class R, std::size_t... I> static typename std::enable_if<std::is_constructible<V, RRep<R, I>...>::value && (sizeof...(I) > 0)>::type regs(const T* x, std::index_sequence<I...>, int) { R r[sizeof...(I)]; std::memcpy((void*)r, x, sizeof r); V v(r[I]...); is("register-constructor", v, x); }
    template<class R, class S> static void regs(const T*, S, long) {}
    template<class R> static void from_registers(const T* x) { regs<R>(x, std::make_index_sequence<(sizeof(T) * N) / sizeof(R)>(), 0); }
    static void printed(const std::string& w, const V& v, const T* x, vf::Rng& r) {
        std::ostringstream o; int prec = r.chance(1, 2) ? 6 : 17; o.precision(prec); o << v; std::string s = o.str();
        std::vector<std::string> tok; std::string cur; for (char c : s) { if (std::strchr("[], \t\n", c)) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) tok.push_back(cur);
        bool ok = tok.size() == N; for (int i = 0; ok && i < N; ++i) { std::ostringstream e; e.precision(prec); e << x[i]; ok = e.str() == tok[i]; }
        vf::check_lazy(ok, K(w), [&] { return VF_STR("printed as " << s << " for lanes " << show(x, N)); });
        std::ostringstream q; q << "<" << v << "|" << v << ">"; std::string t = q.str(); vf::check(t.size() > 2 && t[0] == '<' && t[t.size() - 1] == '>', K(w + "-chain"), "stream insertion does not chain");
        vf::event("printed", N);
    }
    static void all(vf::Rng& r) {
        T x[N], y[N]; for (int i = 0; i < N; ++i) { x[i] = hostile<T>(r); y[i] = hostile<T>(r); }
        vf::step(VF_STR(vk<T, N>() << " x=" << show(x, N)));
        vf::check(V::ARITY == N && width<V>(0) == N, K("width"), "reported width");
        V vx((const T*)x), vy((const T*)y); 
        is("memory", vx, x);
        { T z[N]; std::memset(z, 0, sizeof z); V d; is("default", d, z); V d2 = V(); is("default", d2, z); }
        { T s = hostile<T>(r), f[N]; for (int i = 0; i < N; ++i) f[i] = s; V b(s); is("scalar", b, f); V b2 = s; is("scalar", b2, f); V b3; b3 = s; is("scalar-assigned", b3, f); if (std::is_same<T, float>::value) { V b4(1); for (int i = 0; i < N; ++i) f[i] = 1; is("int-literal", b4, f); } }
        is("list", list(x, std::make_index_sequence<N>()), x); is("list", brace(x, std::make_index_sequence<N>()), x);
        args(x, std::make_index_sequence<N>());
#ifdef __SSE2__
        from_registers<typename std::conditional<std::is_same<T, float>::value, __m128, typename std::conditional<std::is_same<T, double>::value, __m128d, __m128i>::type>::type>(x);
#endif
#ifdef __AVX__
        from_registers<typename std::conditional<std::is_same<T, float>::value, __m256, typename std::conditional<std::is_same<T, double>::value, __m256d, __m256i>::type>::type>(x);
#endif
#ifdef __AVX512F__
        from_registers<typename std::conditional<std::is_same<T, float>::value, __m512, typename std::conditional<std::is_same<T, double>::value, __m512d, __m512i>::type>::type>(x);
#endif
        { V c(vx); is("copy", c, x); V d = vx; is("copy", d, x); d = vy; is("assigned", d, y); is("copy", vx, x); V& e = d; d = e; is("self-assigned", d, y); V m(std::move(d)); is("moved", m, y); V sw(vx); std::swap(sw, m); is("swapped", sw, y); is("swapped", m, x); }
        { V many[3] = {vx, vy, vx}; many[2] = many[1]; is("in-array", many[0], x); is("in-array", many[2], y); }
        // the memory the vector was built from can change afterwards
        { T z[N]; std::memcpy(z, x, sizeof z); V v((const T*)z); for (int i = 0; i < N; ++i) z[i] = y[i]; is("memory-reused", v, x); v.load(z); is("reloaded", v, y); }
        printed("printing", vx, x, r);
        { T p[N]; for (int i = 0; i < N; ++i) p[i] = T(i * 3 + 1 + int(r.below(2))); V v((const T*)p); printed("printing", v, p, r); printed("printing-scalar", V(T(7)), seven(), r); }
        uint64_t h = vf::hash_str(vk<T, N>()); for (int i = 0; i < N; ++i) { uint64_t b = 0; std::memcpy(&b, &x[i], sizeof(T)); h = vf::mix(h, b); } vf::distinct(h);
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
    template<class W> static auto width(int) -> decltype(std::size_t(W::size())) { vf::check(W().size() == N, K("width"), "reported width of an instance"); return W::size(); }
    template<class W> static std::size_t width(long) { return N; } // not every instruction set reports it
    static const T* seven() { static T s[N]; for (int i = 0; i < N; ++i) s[i] = 7; return s; }
};
template<class T, int N> void all() { vf::scenario(vk<T, N>(), vf::scaled(2000), [](vf::Rng& r) { mk<T, N>::all(r); }); }
VF_MAIN({
    vf::st().max_viol = 40;
#if PART == 0
    VF_WIDTHS(all, float)
#elif PART == 1
    VF_WIDTHS(all, double)
#else
    VF_WIDTHS(all, int)
#endif
})
