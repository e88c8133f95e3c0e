// C14: memory footprint and lane order of loads, stores, gathers, scatters.
#include "sv.hpp"
#include "guard.hpp"
template<class V, class T> struct needs_aligned_offsets { static const bool value = (std::is_same<typename V::strategy, short_vec_strategy::avx512f>::value && std::is_same<T, float>::value) || std::is_same<typename V::strategy, short_vec_strategy::mic>::value; };

template<class T, int N> struct mem {
    typedef short_vec<T, N> V;
    static std::string K(const char* w) { return vk<T, N>() + ":" + w; }
    static int alignment() { int a = V::strategy::template alignment<T>::ALIGNMENT; return a; }
    static void put(Guard& g, vf::Rng& r) { for (T* p = (T*)g.b; p + 1 <= (T*)g.e; ++p) *p = hostile<T>(r); }
    // which whole-buffer positions changed other than [at, at + N)
    static void untouched(const Guard& g, const std::vector<char>& was, const T* at, const char* w) {
        std::size_t o = std::size_t((const char*)at - g.b), n = N * sizeof(T);
        bool ok = !std::memcmp(g.b, was.data(), o) && !std::memcmp(g.b + o + n, was.data() + o + n, was.size() - o - n);
        vf::check_lazy(ok, K(w) + ":outside", [&] { return VF_STR(w << " at offset " << o << " changed memory outside its lanes"); });
    }
    static T* place(Guard& g, vf::Rng& r, bool aligned, std::string& desc) {
        T* lo = (T*)g.b; T* hi = (T*)g.e - N; T* p;
        switch (r.below(4)) {
        case 0: p = hi; break; case 1: p = lo; break;
        case 2: p = lo + r.below(64 / sizeof(T) * 2); break;
        default: p = hi - r.below(64 / sizeof(T) * 2); break;
        }
        if (aligned) { std::size_t a = std::size_t(alignment()); p = (T*)(std::size_t(p) / a * a); if (p < lo) p = lo; }
        desc = VF_STR("offset " << (char*)p - g.b << " of " << g.e - g.b);
        return p;
    }
    static void got(const char* w, const V& v, const T* want, const std::string& d) {
        T o[N]; v.store(o);
        for (int i = 0; i < N; ++i) vf::check_lazy(same_bits(o[i], want[i]), K(w) + ":lane", [&] { return VF_STR(w << " at " << d << ": lane " << i << " is " << o[i] << " instead of " << want[i]); });
        vf::event(w, N);
    }
    static void linear(vf::Rng& r) {
        Guard g(N * sizeof(T) + 256); put(g, r);
        std::string d;
        for (int k = 0; k < 2; ++k) {
            T* p = place(g, r, false, d); vf::step(VF_STR(vk<T, N>() << " load " << d)); std::vector<char> was = g.copy();
            T w[N]; std::memcpy(w, p, sizeof w);
            { V v; v.load(p); got("load", v, w, d); } { V v((const T*)p); got("load-constructor", v, w, d); }
            p = place(g, r, true, d); vf::step(VF_STR(vk<T, N>() << " load_aligned " << d)); std::memcpy(w, p, sizeof w);
            { V v; v.load_aligned(p); got("load_aligned", v, w, d); }
            vf::check(!std::memcmp(was.data(), g.b, was.size()), K("load") + ":outside", "a load modified memory");
            vf::distinct(vf::hash_str(vf::st().step));
        }
        for (int form = 0; form < 4; ++form) {
            static const char* nm[] = {"store", "store_aligned", "store_nt", "store-operator"};
            T x[N]; for (int i = 0; i < N; ++i) x[i] = hostile<T>(r);
            V v((const T*)x);
            T* p = place(g, r, form == 1 || form == 2, d); vf::step(VF_STR(vk<T, N>() << " " << nm[form] << " " << d));
            std::vector<char> was = g.copy();
            switch (form) { case 0: v.store(p); break; case 1: v.store_aligned(p); break; case 2: v.store_nt(p); break; case 3: p << v; break; }
            for (int i = 0; i < N; ++i) vf::check_lazy(same_bits(p[i], x[i]), K(nm[form]) + ":lane", [&] { return VF_STR(nm[form] << " at " << d << ": lane " << i << " stored as " << p[i] << " instead of " << x[i]); });
            untouched(g, was, p, nm[form]); vf::event(nm[form], N);
            vf::distinct(vf::hash_str(vf::st().step));
        }
        // roundtrip within one buffer, overlapping by one element
        { T* p = (T*)g.b + 1; T w[N]; std::memcpy(w, p, sizeof w); V v((const T*)p); v.store(p + 1 + N <= (T*)g.e ? p + 1 : p); }
    }
    static void indexed(vf::Rng& r) {
        const int SPAN = 200;
        Guard g(SPAN * sizeof(T)), og(N * sizeof(int) + 64); put(g, r);
        // elements usable: exactly the mapped ones
        long count = (g.e - g.b) / long(sizeof(T));
        long base = r.chance(1, 3) ? 0 : r.chance(1, 2) ? count - 1 : long(r.below(count));
        T* p = (T*)g.b + base;
        int* off = (int*)og.e - N; // flush with the end of its page
        if (!needs_aligned_offsets<V, T>::value && r.chance(1, 2)) off = r.chance(1, 2) ? (int*)og.b : (int*)og.b + r.below(17);
        bool perm = r.chance(1, 4), dup = r.chance(1, 3);
        for (int i = 0; i < N; ++i) {
            switch (r.below(5)) {
            case 0: off[i] = int(-base); break; case 1: off[i] = int(count - 1 - base); break;
            default: off[i] = int(long(r.below(count)) - base); break;
            }
            if (perm) off[i] = int((i * 7 + 3) % N - (base > N ? N : 0)) ;
            if (perm && (base + off[i] < 0 || base + off[i] >= count)) off[i] = 0;
            if (dup && i && r.chance(1, 2)) off[i] = off[r.below(i)];
        }
        vf::step(VF_STR(vk<T, N>() << " base " << base << " offsets " << show(off, N)));
        { T w[N]; for (int i = 0; i < N; ++i) w[i] = p[off[i]]; std::vector<char> was = g.copy(); V v; v.gather(p, off); got("gather", v, w, vf::st().step); vf::check(!std::memcmp(was.data(), g.b, was.size()), K("gather") + ":outside", "gather modified memory"); }
        {
            T x[N]; for (int i = 0; i < N; ++i) x[i] = hostile<T>(r);
            std::vector<char> want = g.copy(); for (int i = 0; i < N; ++i) std::memcpy(&want[std::size_t(base + off[i]) * sizeof(T)], &x[i], sizeof(T));
            const V v((const T*)x); v.scatter(p, off);
            vf::check_lazy(!std::memcmp(want.data(), g.b, want.size()), K("scatter") + ":memory", [&] {
                for (long i = 0; i < count; ++i) if (std::memcmp(&want[std::size_t(i) * sizeof(T)], (T*)g.b + i, sizeof(T))) return VF_STR("scatter: element " << i - base << " is " << ((T*)g.b)[i] << "; " << vf::st().step);
                return std::string("scatter"); });
            T o[N]; v.store(o); for (int i = 0; i < N; ++i) vf::check(same_bits(o[i], x[i]), K("scatter") + ":vector", "scatter changed the vector");
            vf::event("scatter", N);
        }
        vf::distinct(vf::hash_str(vf::st().step));
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
    // offsets over the whole int range, in a sparse reservation of address space
    static void far(vf::Rng& r) {
        std::size_t span = (std::size_t(1) << 32) * sizeof(T);
        char* m = (char*)mmap(0, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { vf::event("far_unavailable"); return; }
        T* p = (T*)m + (std::size_t(1) << 31);
        alignas(64) int off[N]; T x[N], w[N];
        for (int rep = 0; rep < 3; ++rep) {
            for (int i = 0; i < N; ++i) { off[i] = r.chance(1, 5) ? INT_MIN : r.chance(1, 5) ? INT_MAX : r.chance(1, 3) ? int((r.chance(1, 2) ? 1 : -1) * (long(1) << r.range(26, 30))) : int(r.next()); x[i] = T(i * 4 + rep + 1); }
            vf::step(VF_STR(vk<T, N>() << " far offsets " << show(off, N)));
            V v((const T*)x); v.scatter(p, off);
            for (int i = 0; i < N; ++i) { int last = i; for (int j = i + 1; j < N; ++j) if (off[j] == off[i]) last = j; T e = p[off[i]]; vf::check_lazy(same_bits(e, x[last]), K("scatter") + ":far", [&] { return VF_STR("scatter to offset " << off[i] << " stored " << e << " instead of " << x[last]); }); p[off[i]] = w[i] = x[last]; }
            V u; u.gather(p, off); got("gather", u, w, "far"); vf::event("far_lanes", N);
            vf::distinct(vf::hash_str(vf::st().step));
        }
        munmap(m, span);
    }
};
template<class T, int N> void all() {
    vf::scenario(vk<T, N>() + "-linear", vf::scaled(1500), [](vf::Rng& r) { mem<T, N>::linear(r); });
    vf::scenario(vk<T, N>() + "-indexed", vf::scaled(1500), [](vf::Rng& r) { mem<T, N>::indexed(r); });
    vf::scenario(vk<T, N>() + "-far", vf::scaled(3), [](vf::Rng& r) { mem<T, N>::far(r); });
}
VF_MAIN({
    vf::st().max_viol = 40;
#if PART == 0
    VF_WIDTHS(all, float)
#elif PART == 1
    VF_WIDTHS(all, double)
#else
    VF_WIDTHS(all, int)
#endif
})
