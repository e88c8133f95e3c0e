// C16: streaming vectors against ordinary vectors of the same width.
#include "sv.hpp"
#include "guard.hpp"
template<class T, int N> struct base {
    typedef short_vec<T, N> V; typedef streaming_short_vec<T, N> S;
    static std::string K(const std::string& w) { return vk<T, N>() + ":" + w; }
    static void eq(const std::string& w, const V& a, const V& b) {
        T x[N], y[N]; a.V::store(x); b.V::store(y);
        for (int i = 0; i < N; ++i) vf::check_lazy(same_val(x[i], y[i]), K(w), [&] { return VF_STR(w << ": lane " << i << " is " << x[i] << ", ordinary vector has " << y[i] << "; " << vf::st().step); });
        vf::event("compared_" + w, N);
    }
    static void stores(vf::Rng& r, const S& s0, const T* x) {
        const std::size_t al = std::size_t(int(V::strategy::template alignment<T>::ALIGNMENT));
        for (int form = 0; form < 4; ++form) {
            static const char* nm[] = {"store", "store_aligned", "store_nt", "store-operator"};
            Guard g(N * sizeof(T)); g.fill(r);
            T* p = r.chance(1, 2) ? (T*)g.e - N : (T*)g.b + r.below(4) * 64 / sizeof(T); p = (T*)(std::size_t(p) / al * al);
            vf::step(VF_STR(vk<T, N>() << " " << nm[form] << " at " << (char*)p - g.b));
            std::vector<char> was = g.copy(); S s(s0);
            switch (form) { case 0: s.store(p); break; case 1: s.store_aligned(p); break; case 2: s.store_nt(p); break; case 3: p << s; break; }
            for (int i = 0; i < N; ++i) vf::check_lazy(same_bits(p[i], x[i]), K(nm[form]) + ":lane", [&] { return VF_STR(nm[form] << " lane " << i << " stored as " << p[i] << " instead of " << x[i]); });
            std::size_t o = std::size_t((char*)p - g.b), n = N * sizeof(T);
            vf::check(!std::memcmp(g.b, was.data(), o) && !std::memcmp(g.b + o + n, was.data() + o + n, was.size() - o - n), K(nm[form]) + ":outside", "streaming store changed memory outside its lanes");
            vf::event(nm[form], N);
        }
    }
    template<std::size_t... I> static S list(const T* x, std::index_sequence<I...>) { return S({x[I]...}); }
    static void build(vf::Rng& r, const T* x) {
        S s((const T*)x); V v((const T*)x); eq("from-memory", s, v); eq("default", S(), V()); T c = hostile<T>(r); eq("from-scalar", S(c), V(c)); eq("from-list", list(x, std::make_index_sequence<N>()), v);
        eq("from-vector", S(V(v)), v); S k(s); eq("copy", k, v); S q; q = s; eq("assigned", q, v); V back = s; eq("to-ordinary", back, v); V b2; b2 = s; eq("to-ordinary", b2, v);
        { S l; l.load((const T*)x); eq("load", l, v); }
        { alignas(64) T a[N]; std::memcpy(a, x, sizeof a); S l; l.load_aligned(a); eq("load_aligned", l, v); }
        vf::check(S::size() == N && s.size() == N, K("width"), "width of a streaming vector");
        std::ostringstream a, b; a << s; b << v; vf::check(a.str() == b.str(), K("printing"), a.str() + " vs " + b.str());
        alignas(64) int off[N]; T buf[64]; for (int i = 0; i < 64; ++i) buf[i] = hostile<T>(r); for (int i = 0; i < N; ++i) off[i] = int(r.below(64)) - 20;
        { S gs; gs.gather(buf + 20, off); V gv; gv.gather(buf + 20, off); eq("gather", gs, gv); }
        { T b1[64], b2[64]; std::memset(b1, 0, sizeof b1); std::memset(b2, 0, sizeof b2); s.scatter(b1 + 20, off); v.scatter(b2 + 20, off); vf::check(!std::memcmp(b1, b2, sizeof b1), K("scatter"), "scatter differs"); vf::event("compared_scatter", N); }
        stores(r, s, x);
    }
};
#define AR(NAME, OP, CO) eq("op" NAME, S(sa OP sb), va OP vb); { S t(sa); t CO sb; V u(va); u CO vb; eq("op" NAME "=", t, u); t CO vb; u CO vb; eq("op" NAME "=ordinary", t, u); } eq("op" NAME "-mixed", va OP sb, va OP vb); eq("op" NAME "-mixed", sa OP vb, va OP vb);
template<class T, int N> struct fp : base<T, N> {
    typedef base<T, N> B; typedef typename B::V V; typedef typename B::S S; using B::eq; using B::K;
    static void all(vf::Rng& r) {
        T x[N], y[N]; for (int i = 0; i < N; ++i) { x[i] = hostile<T>(r); y[i] = hostile<T>(r); }
        vf::step(VF_STR(vk<T, N>() << " x=" << show(x, N) << " y=" << show(y, N)));
        B::build(r, x);
        S sa((const T*)x), sb((const T*)y); V va((const T*)x), vb((const T*)y);
        AR("+", +, +=) AR("-", -, -=) AR("*", *, *=) AR("/", /, /=)
        eq("scalar-op", T(2) + sa, T(2) + va); eq("scalar-op", T(2) - sa, T(2) - va); eq("scalar-op", T(2) * sa, T(2) * va); eq("scalar-op", T(2) / sa, T(2) / va);
        eq("sqrt", V(sqrt(sa)), V(sqrt(va))); eq("sqrt()", sa.sqrt(), va.sqrt()); { S t = V(sa / sqrt(sb)); eq("/sqrt", t, va / sqrt(vb)); }
        { S t((sa + sb) * sa - sb); eq("chain", t, (va + vb) * va - vb); }
#define CM(OP) { auto ms = sa OP sb; auto mv = va OP vb; for (int i = 0; i < N; ++i) vf::check(bool(get(ms, i) != 0) == bool(get(mv, i) != 0), K("compare" #OP), "comparison mask differs"); vf::check(bool(any(ms)) == bool(any(mv)), K("any" #OP), "any() differs"); vf::check((count_mask<T, N>(ms) == count_mask<T, N>(mv)), K("count" #OP), "count differs"); \
        { S t(sa); t.blend(ms, sb); V u(va); u.blend(mv, vb); eq("blend", t, u); T o[N]; u.store(o); } { V t = blend(V(sa), V(sb), ms); V u(va); u.blend(mv, vb); eq("blend-function", t, u); } vf::event("compared_masks", N); }
        CM(<) CM(<=) CM(==) CM(>) CM(>=)
        for (int i = 0; i < N; ++i) { vf::check(same_bits(T(sa[i]), x[i]), K("extract"), "lane extraction"); vf::check(same_bits(T(get(sa, i)), x[i]), K("get"), "get"); }
        vf::check(bool(any(S(T(0)))) == bool(any(V(T(0)))), K("any"), "any of a zero vector");
        vf::distinct(vf::hash_str(VF_STR(vk<T, N>() << show(x, N) << show(y, N))));
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
};
template<int N> struct ints : base<int, N> {
    typedef int T; typedef base<int, N> B; typedef typename B::V V; typedef typename B::S S; using B::eq; using B::K;
    static void all(vf::Rng& r) {
        T x[N], y[N]; for (int i = 0; i < N; ++i) { x[i] = int(r.range(-30000, 30000)); do y[i] = int(r.range(-30000, 30000)); while (!y[i]); }
        vf::step(VF_STR(vk<T, N>() << " x=" << show(x, N) << " y=" << show(y, N)));
        B::build(r, x);
        S sa((const T*)x), sb((const T*)y); V va((const T*)x), vb((const T*)y);
        AR("+", +, +=) AR("-", -, -=)
        eq("op*", S(sa * sb), va * vb); { S t(sa); t *= sb; V u(va); u *= vb; eq("op*=", t, u); } eq("op/", S(sa / sb), va / vb); { S t(sa); t /= sb; V u(va); u /= vb; eq("op/=", t, u); }
        T z[N]; for (int i = 0; i < N; ++i) z[i] = std::abs(x[i]); { S t((const T*)z); V u((const T*)z); eq("sqrt", V(sqrt(t)), V(sqrt(u))); }
        vf::distinct(vf::hash_str(VF_STR(vk<T, N>() << show(x, N) << show(y, N))));
    }
};
template<class T, int N> void all_fp() { vf::scenario(vk<T, N>(), vf::scaled(1500), [](vf::Rng& r) { fp<T, N>::all(r); }); }
template<class T, int N> void all_int() { vf::scenario(vk<int, N>(), vf::scaled(1500), [](vf::Rng& r) { ints<N>::all(r); }); }
VF_MAIN({
    vf::st().max_viol = 40;
#if PART == 0
    VF_WIDTHS(all_fp, float)
#elif PART == 1
    VF_WIDTHS(all_fp, double)
#else
    VF_WIDTHS(all_int, int)
#endif
})
