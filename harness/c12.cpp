// C12: vector arithmetic against lane-wise scalar arithmetic.
#include "sv.hpp"

#pragma GCC push_options
template<class T> struct ref { // scalar oracle, kept out of line so that it is not vectorised together with the code under test
    static __attribute__((noinline)) T add(T a, T b) { return a + b; }
    static __attribute__((noinline)) T sub(T a, T b) { return a - b; }
    static __attribute__((noinline)) T mul(T a, T b) { return a * b; }
    static __attribute__((noinline)) T div(T a, T b) { return a / b; }
    static __attribute__((noinline)) T root(T a) { return T(std::sqrt(a)); }
};
#pragma GCC pop_options
#ifndef VF_APPROX_SQRT // some instruction sets only have estimates of square roots
#define VF_APPROX_SQRT 0
#endif
enum Mode { EXACT, APPROX, INTROOT, INTRSQRT };
template<class T> bool close(Mode m, T got, T want, double exact) {
    switch (m) {
    case EXACT: return same_val(got, want);
    case APPROX: return want == T(0) ? got == T(0) : std::fabs(double(got) - exact) <= 0.001 * std::fabs(exact);
    case INTROOT: return double(got) >= std::floor(exact) && double(got) <= std::ceil(exact);
    default: return true;
    }
}
template<class T, int N> struct op {
    typedef short_vec<T, N> V;
    static void cmp(const char* name, Mode m, const V& got, const T* want, const double* exact, const T* a, const T* b) {
        T g[N]; got.store(g);
        for (int i = 0; i < N; ++i)
            vf::check_lazy(close<T>(m, g[i], want[i], exact ? exact[i] : 0), vk<T, N>() + ":" + name, [&] { std::ostringstream o; o.precision(17); o << name << " lane " << i << ": operands " << a[i] << (b ? " , " : "") ; if (b) o << b[i]; o << " gave " << g[i] << ", scalar result " << want[i]; return o.str(); });
        vf::event(std::string("op_") + name, N);
    }
};
#define BIN(NAME, EXPR, COMPOUND, LEFT, RF, MODE) do { \
    T w[N]; double e[N]; for (int i = 0; i < N; ++i) { w[i] = ref<T>::RF(a[i], b[i]); e[i] = double(w[i]); } \
    O::cmp(NAME, MODE, va EXPR vb, w, e, a, b); \
    { V x(va); x COMPOUND vb; O::cmp(NAME "=", MODE, x, w, e, a, b); } \
    { const V x(va), y(vb); O::cmp(NAME "(const)", MODE, x EXPR y, w, e, a, b); } \
    if (okl) { T l[N], wl[N]; double el[N]; for (int i = 0; i < N; ++i) { l[i] = s; wl[i] = ref<T>::RF(s, b[i]); el[i] = double(wl[i]); } \
      O::cmp("scalar" NAME, MODE, LEFT EXPR vb, wl, el, l, b); } \
    { V x(va); x = x EXPR vb; O::cmp(NAME "(self)", MODE, x, w, e, a, b); } \
    T ga[N], gb[N]; va.store(ga); vb.store(gb); \
    vf::check(!std::memcmp(ga, a, sizeof ga) && !std::memcmp(gb, b, sizeof gb), vk<T, N>() + ":" NAME ":operand-changed", "operator " NAME " modified an operand"); \
    } while (0)

template<class T, int N> struct fp {
    typedef short_vec<T, N> V; typedef op<T, N> O;
    static void exact(vf::Rng& r) {
        T a[N], b[N]; T s = hostile<T>(r); bool okl = true;
        for (int i = 0; i < N; ++i) { a[i] = hostile<T>(r); b[i] = hostile<T>(r); }
        vf::step(VF_STR(vk<T, N>() << " a=" << show(a, N) << " b=" << show(b, N) << " s=" << s));
        V va((const T*)a), vb((const T*)b);
        BIN("+", +, +=, s, add, EXACT); BIN("-", -, -=, s, sub, EXACT); BIN("*", *, *=, s, mul, EXACT);
        if (std::is_same<T, double>::value) BIN("/", /, /=, s, div, EXACT);
        if (VF_APPROX_SQRT && std::is_same<T, float>::value) { T c[N], w[N]; double e[N]; for (int i = 0; i < N; ++i) { c[i] = std::fabs(moderate<T>(r)); w[i] = ref<T>::root(c[i]); e[i] = std::sqrt(double(c[i])); } V vc((const T*)c); { V x = sqrt(vc); O::cmp("sqrt", APPROX, x, w, e, c, (T*)0); } { V x(vc.sqrt()); O::cmp("sqrt()", APPROX, x, w, e, c, (T*)0); } }
        else { T c[N], w[N]; for (int i = 0; i < N; ++i) { c[i] = std::fabs(a[i]); w[i] = ref<T>::root(c[i]); } V vc((const T*)c); { V x = sqrt(vc); O::cmp("sqrt", EXACT, x, w, 0, c, (T*)0); } { V x(vc.sqrt()); O::cmp("sqrt()", EXACT, x, w, 0, c, (T*)0); } }
        // aliasing
        { T w[N]; for (int i = 0; i < N; ++i) w[i] = ref<T>::add(a[i], a[i]); V x(va); x += x; O::cmp("+=self", EXACT, x, w, 0, a, a); }
        { T w[N]; for (int i = 0; i < N; ++i) w[i] = ref<T>::sub(a[i], a[i]); V x(va); x -= x; O::cmp("-=self", EXACT, x, w, 0, a, a); }
        { T w[N]; for (int i = 0; i < N; ++i) w[i] = ref<T>::mul(a[i], a[i]); V x(va); x *= x; O::cmp("*=self", EXACT, x, w, 0, a, a); }
        // chains
        { T w[N]; for (int i = 0; i < N; ++i) w[i] = ref<T>::sub(ref<T>::mul(ref<T>::add(a[i], b[i]), a[i]), b[i]); O::cmp("chain", EXACT, (va + vb) * va - vb, w, 0, a, b); }
        vf::distinct(vf::hash_str(vf::st().step) );
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
    static void division(vf::Rng& r) {
        T a[N], b[N]; T s = moderate<T>(r); bool okl = true;
        for (int i = 0; i < N; ++i) { a[i] = moderate<T>(r); do b[i] = moderate<T>(r); while (b[i] == 0); }
        vf::step(VF_STR(vk<T, N>() << " a=" << show(a, N) << " b=" << show(b, N) << " s=" << s));
        V va((const T*)a), vb((const T*)b);
        const Mode M = std::is_same<T, double>::value ? EXACT : APPROX;
        BIN("/", /, /=, s, div, M);
        // division by / of a square root
        T c[N]; for (int i = 0; i < N; ++i) c[i] = std::fabs(b[i]);
        V vc((const T*)c);
        T w[N], wl[N], q[N], ql[N], l[N]; double e[N], el[N], eq[N], eql[N];
        for (int i = 0; i < N; ++i) {
            w[i] = a[i] / std::sqrt(c[i]); e[i] = double(a[i]) / std::sqrt(double(c[i]));
            l[i] = s; wl[i] = s / std::sqrt(c[i]); el[i] = double(s) / std::sqrt(double(c[i]));
            q[i] = std::sqrt(c[i]) / a[i]; eq[i] = std::sqrt(double(c[i])) / double(a[i]);
            ql[i] = std::sqrt(c[i]) / s; eql[i] = std::sqrt(double(c[i])) / double(s);
        }
        O::cmp("/sqrt", M, va / sqrt(vc), w, e, a, c);
        { V x(va); x /= sqrt(vc); O::cmp("/=sqrt", M, x, w, e, a, c); }
        O::cmp("scalar/sqrt", M, V(s) / sqrt(vc), wl, el, l, c);
        { bool z = false; for (int i = 0; i < N; ++i) z |= a[i] == 0; if (!z) O::cmp("sqrt/", M, sqrt(vc) / va, q, eq, c, a); }
        if (s != 0) O::cmp("sqrt/scalar", M, sqrt(vc) / s, ql, eql, c, l);
        // one lane changed: all other lanes bit for bit the same
        int k = int(r.below(N)); T b2[N], a2[N]; std::memcpy(b2, b, sizeof b); std::memcpy(a2, a, sizeof a); do b2[k] = moderate<T>(r); while (b2[k] == 0); a2[k] = hostile<T>(r);
        T g[N], g2[N]; { V x = va / vb; x.store(g); V y = V((const T*)a2) / V((const T*)b2); y.store(g2); }
        for (int i = 0; i < N; ++i) if (i != k) vf::check(same_bits(g[i], g2[i]), vk<T, N>() + ":cross-lane", VF_STR("changing lane " << k << " changed the quotient in lane " << i));
        vf::event("cross_lane", N);
        vf::distinct(vf::hash_str(vf::st().step));
    }
};
template<class T, int N> void all_fp() {
    vf::scenario(vk<T, N>() + "-exact", vf::scaled(4000), [](vf::Rng& r) { fp<T, N>::exact(r); });
    vf::scenario(vk<T, N>() + "-division", vf::scaled(4000), [](vf::Rng& r) { fp<T, N>::division(r); });
}
template<int N> struct ints {
    typedef int T; typedef short_vec<int, N> V; typedef op<int, N> O;
    static bool fits(long long v) { return v >= INT_MIN && v <= INT_MAX; }
    template<class F> static void fill(vf::Rng& r, int* a, int* b, int& s, F f) {
        s = moderate<int>(r);
        for (int i = 0; i < N; ++i) do { a[i] = r.chance(1, 6) ? hostile<int>(r) : moderate<int>(r); b[i] = r.chance(1, 6) ? hostile<int>(r) : moderate<int>(r); } while (!f(a[i], b[i]));
    }
    template<class F> static bool left(int s, const int* b, F f) { for (int i = 0; i < N; ++i) if (!f(s, b[i])) return false; return true; }
    static void all(vf::Rng& r) {
        int a[N], b[N], s; bool okl;
#define WITH(COND) { auto f = [](long long x, long long y) { return COND; }; fill(r, a, b, s, f); for (int t = 0; t < 40 && !left(s, b, f); ++t) s = int(r.range(-30, 30)); okl = left(s, b, f); }
#define STEP vf::step(VF_STR(vk<int, N>() << " a=" << show(a, N) << " b=" << show(b, N) << " s=" << s))
        WITH(fits(x + y)); STEP; { V va((const int*)a), vb((const int*)b); BIN("+", +, +=, s, add, EXACT); }
        WITH(fits(x - y)); STEP; { V va((const int*)a), vb((const int*)b); BIN("-", -, -=, s, sub, EXACT); }
        WITH(fits(x * y)); STEP; { V va((const int*)a), vb((const int*)b); BIN("*", *, *=, s, mul, EXACT); }
        WITH(y != 0 && fits(x / y)); STEP; { V va((const int*)a), vb((const int*)b); BIN("/", /, /=, s, div, EXACT); }
        { int c[N], w[N]; double e[N]; for (int i = 0; i < N; ++i) { c[i] = a[i] == INT_MIN ? INT_MAX : std::abs(a[i]); if (r.chance(1, 4)) { int q = int(r.below(46340)); c[i] = q * q; } w[i] = int(std::sqrt(double(c[i]))); e[i] = std::sqrt(double(c[i])); }
          V vc((const int*)c); { V x = sqrt(vc); O::cmp("sqrt", INTROOT, x, w, e, c, (int*)0); } { V x(vc.sqrt()); O::cmp("sqrt()", INTROOT, x, w, e, c, (int*)0); }
          // a / sqrt(c): between the quotients by the two neighbouring roots
          int n[N]; for (int i = 0; i < N; ++i) { if (c[i] < 1) c[i] = int(1 + r.below(100000)); n[i] = int(r.range(-1000000, 1000000)); }
          V vd((const int*)c), vn((const int*)n); int g[N];
          for (int form = 0; form < 2; ++form) {
              if (form == 0) { V x = vn / sqrt(vd); x.store(g); } else { V x(vn); x /= sqrt(vd); x.store(g); }
              for (int i = 0; i < N; ++i) { double lo = std::fabs(n[i] / std::ceil(std::sqrt(double(c[i])))), hi = std::fabs(n[i] / std::floor(std::sqrt(double(c[i])))); double v = std::fabs(double(g[i]));
                  vf::check_lazy(v >= lo * 0.999 - 1 && v <= hi * 1.001 + 1 && (g[i] == 0 || (g[i] < 0) == (n[i] < 0)), vk<int, N>() + ":/sqrt", [&] { return VF_STR("lane " << i << ": " << n[i] << " / sqrt(" << c[i] << ") gave " << g[i]); }); }
              vf::event("op_/sqrt", N);
          } }
        vf::distinct(vf::hash_str(vf::st().step));
        if (vf::st().case_index < 1 && N == 4) vf::sample(vf::st().step);
    }
};
template<class T, int N> void all_int() { vf::scenario(vk<int, N>() + "-int", vf::scaled(5000), [](vf::Rng& r) { ints<N>::all(r); }); }
VF_MAIN({
    vf::st().max_viol = 40;
#if PART == 0
    VF_WIDTHS(all_fp, float)
#elif PART == 1
    VF_WIDTHS(all_fp, double)
#else
    VF_WIDTHS(all_int, int)
#endif
})
