// C13: comparisons, masks, blending, lane extraction against lane-wise scalar logic.
#include "sv.hpp"
template<class M> typename std::enable_if<std::is_integral<M>::value, bool>::type raw_lane(const M& m, int i, int) { return (m >> i) & 1; }
template<class M> typename std::enable_if<!std::is_integral<M>::value, bool>::type raw_lane(const M& m, int i, int w) {
    unsigned char b[sizeof(M)]; std::memcpy(b, &m, sizeof b); for (int k = 0; k < w; ++k) if (b[i * w + k]) return true; return false;
}
template<class M> typename std::enable_if<std::is_integral<M>::value, bool>::type extra_bits(const M& m, int n) { return n < int(sizeof(M) * 8) && ((unsigned long long)m >> n) != 0; }
template<class M> typename std::enable_if<!std::is_integral<M>::value, bool>::type extra_bits(const M&, int) { return false; }

template<class T, int N> struct cmp {
    typedef short_vec<T, N> V; typedef typename V::mask_type M;
    static __attribute__((noinline)) bool rel(int k, T a, T b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a == b; case 3: return a > b; default: return a >= b; } }
    static const char* name(int k) { static const char* n[] = {"<", "<=", "==", ">", ">="}; return n[k]; }
    static M mask(int k, const V& a, const V& b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a == b; case 3: return a > b; default: return a >= b; } }
    static void judge(vf::Rng& r, int k, const T* a, const T* b) {
        const std::string K = vk<T, N>() + ":" + name(k);
        V va(a), vb(b);
        const M m = mask(k, va, vb);
        auto d = [&](const char* w) { return VF_STR(w << ": " << show(a, N) << " " << name(k) << " " << show(b, N)); };
        bool want[N]; std::size_t n = 0;
        for (int i = 0; i < N; ++i) { want[i] = rel(k, a[i], b[i]); n += want[i]; }
        for (int i = 0; i < N; ++i) {
            vf::check_lazy(bool(get(m, i) != 0) == want[i], K + ":lane", [&] { return VF_STR("lane " << i << " " << d("mask")); });
            vf::check_lazy(raw_lane(m, i, sizeof(T)) == want[i], K + ":raw-lane", [&] { return VF_STR("lane " << i << " " << d("mask bits")); });
        }
        vf::check_lazy(!extra_bits(m, N), K + ":extra-bits", [&] { return d("mask has bits beyond the lanes"); });
        vf::check_lazy(bool(any(m)) == (n != 0), K + ":any", [&] { return d("any()"); });
        std::size_t c = count_mask<T, N>(m);
        vf::check_lazy(c == n, K + ":count", [&] { return VF_STR("count_mask gave " << c << " instead of " << n << " " << d("")); });
        // blend arbitrary bit patterns under this mask
        T x[N], y[N], g[N]; for (int i = 0; i < N; ++i) { x[i] = hostile<T>(r); y[i] = hostile<T>(r); }
        V vx((const T*)x), vy((const T*)y);
        auto bl = [&](const char* w) { for (int i = 0; i < N; ++i) vf::check_lazy(same_bits(g[i], want[i] ? y[i] : x[i]), K + ":" + w, [&] { return VF_STR(w << " lane " << i << " got " << g[i] << " from x=" << x[i] << " y=" << y[i] << " mask " << want[i] << " " << d("")); }); };
        { V z(vx); z.blend(m, vy); z.store(g); bl("blend"); }
        { V z = blend(vx, vy, m); z.store(g); bl("blend-function"); vx.store(g); for (int i = 0; i < N; ++i) vf::check(same_bits(g[i], x[i]), K + ":blend-operand", "blend() changed its operand"); }
        { V z(vx); z.blend(m, vx); z.store(g); for (int i = 0; i < N; ++i) vf::check(same_bits(g[i], x[i]), K + ":blend-self", "blending a vector with itself changed it"); }
        if (r.chance(1, 4)) { // blend in a scalar
            T s = moderate<T>(r); V z(vx); z.blend(m, s); z.store(g); for (int i = 0; i < N; ++i) vf::check(same_bits(g[i], want[i] ? s : x[i]), K + ":blend-scalar", d("blend scalar")); }
        for (int i = 0; i < N; ++i) { vf::check_lazy(same_bits(T(vx[i]), x[i]), vk<T, N>() + ":extract", [&] { return VF_STR("lane " << i << " of " << show(x, N) << " extracted as " << vx[i]); }); vf::check(same_bits(T(get(vy, i)), y[i]), vk<T, N>() + ":get", "get(vec, i)"); }
        vf::event(std::string("compare_") + name(k)); vf::event("lanes", N); vf::event("mask_popcount_total", n);
        uint64_t h = vf::hash_str(K); for (int i = 0; i < N; ++i) h = vf::mix(h, want[i]); vf::distinct(h);
    }
    // operands whose comparison k yields exactly the given lane pattern
    static void pattern(vf::Rng& r, int k, unsigned long long p) {
        T a[N], b[N];
        for (int i = 0; i < N; ++i) for (;;) {
            a[i] = r.chance(1, 3) ? hostile<T>(r) : moderate<T>(r); b[i] = r.chance(1, 3) ? a[i] : r.chance(1, 3) ? hostile<T>(r) : moderate<T>(r);
            if (rel(k, a[i], b[i]) == bool((p >> i) & 1)) break;
        }
        vf::step(VF_STR(vk<T, N>() << " " << name(k) << " pattern " << std::hex << p));
        judge(r, k, a, b);
    }
    static void random(vf::Rng& r) {
        T a[N], b[N]; for (int i = 0; i < N; ++i) { a[i] = hostile<T>(r); b[i] = r.chance(1, 3) ? a[i] : hostile<T>(r); }
        for (int k = 0; k < 5; ++k) { vf::step(VF_STR(vk<T, N>() << " " << name(k) << " a=" << show(a, N) << " b=" << show(b, N))); judge(r, k, a, b); }
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
    static void patterns(vf::Rng& r) {
        const unsigned long long full = N == 64 ? ~0ull : (1ull << N) - 1;
        for (int k = 0; k < 5; ++k) {
            if (N <= 8) for (unsigned long long p = 0; p <= full; ++p) pattern(r, k, p);
            else { pattern(r, k, 0); pattern(r, k, full); for (int i = 0; i < N; ++i) { pattern(r, k, 1ull << i); pattern(r, k, full ^ (1ull << i)); pattern(r, k, r.next() & full); } }
        }
    }
};
template<class T, int N> void all() {
    vf::scenario(vk<T, N>() + "-patterns", vf::thorough() ? 6 : 1, [](vf::Rng& r) { cmp<T, N>::patterns(r); });
    vf::scenario(vk<T, N>() + "-random", vf::scaled(900), [](vf::Rng& r) { cmp<T, N>::random(r); });
}
// the only integer vector with comparisons has one lane
static void one_lane_int(vf::Rng& r) {
    typedef short_vec<int, 1> V;
    int a = hostile<int>(r), b = r.chance(1, 3) ? a : r.chance(1, 4) ? (a ^ (1 << r.below(32))) : hostile<int>(r);
    if (r.chance(1, 8)) a = 0;
    vf::step(VF_STR("intx1 a=" << a << " b=" << b));
    V x(a); V y(b);
    vf::check(bool(x < y) == (a < b), "intx1:<", "mask of <"); vf::check(bool(x <= y) == (a <= b), "intx1:<=", "mask of <="); vf::check(bool(x == y) == (a == b), "intx1:==", "mask of ==");
    vf::check(bool(x == b) == (a == b), "intx1:==scalar", "mask of == with a scalar"); vf::check(bool(x > y) == (a > b), "intx1:>", "mask of >"); vf::check(bool(x >= y) == (a >= b), "intx1:>=", "mask of >=");
    vf::check(any(x) == (a != 0), "intx1:any", "any()"); vf::check(x[0] == a, "intx1:extract", "lane extraction");
    vf::event("one_lane_int"); vf::distinct(vf::mix(vf::mix(77, (unsigned)a), (unsigned)b));
}
#ifdef VF_NEON // of all NEON vectors only float x 4 has comparisons; it has masks but nothing which consumes them
static void neon_masks(vf::Rng& r) {
    typedef short_vec<float, 4> V; const char* n[] = {"<", "<=", "==", ">", ">="};
    float a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = hostile<float>(r); b[i] = r.chance(1, 3) ? a[i] : r.chance(1, 6) ? -a[i] : hostile<float>(r); }
    vf::step(VF_STR("floatx4 a=" << show(a, 4) << " b=" << show(b, 4)));
    V x((const float*)a), y((const float*)b); V::mask_type m[] = {x < y, x <= y, x == y, x > y, x >= y};
    uint64_t h = 4;
    for (int k = 0; k < 5; ++k) for (int i = 0; i < 4; ++i) {
        bool w = k == 0 ? a[i] < b[i] : k == 1 ? a[i] <= b[i] : k == 2 ? a[i] == b[i] : k == 3 ? a[i] > b[i] : a[i] >= b[i];
        std::uint32_t bits = m[k][i]; vf::check_lazy(bits == (w ? 0xffffffffu : 0u), VF_STR("floatx4:" << n[k] << ":lane"), [&] { return VF_STR("lane " << i << " mask " << bits); }); h = vf::mix(h, bits);
    }
    vf::event("neon_masks"); vf::distinct(h);
}
#endif
VF_MAIN({
    vf::st().max_viol = 40;
#ifdef VF_NEON
    vf::scenario("neon-masks", vf::scaled(2000), neon_masks);
#elif PART == 0
    VF_WIDTHS(all, float)
#else
    VF_WIDTHS(all, double)
    vf::scenario("intx1", vf::scaled(3000), one_lane_int);
#endif
})
