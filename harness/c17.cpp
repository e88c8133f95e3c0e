// C17: the loop peeler covers each iteration exactly once, in order, in range.
#include "sv.hpp"
#include "guard.hpp"
#include <libflatarray/loop_peeler.hpp>
#include <functional>

struct Call { long arity; long long from, stop, after; int stream; int tag; };
static std::vector<Call> calls;
static std::vector<std::pair<long long, long> > iters;   // (first iteration, width) per step
static long tag_seen;

template<class V> struct is_stream { static const int value = 0; };
template<class T, std::size_t N> struct is_stream<streaming_short_vec<T, N> > { static const int value = 1; };
template<class V> struct cargo_of;
template<class T, std::size_t N> struct cargo_of<short_vec<T, N> > { typedef T type; };
template<class T, std::size_t N> struct cargo_of<streaming_short_vec<T, N> > { typedef T type; };

// the loop body a user would write; the number of steps is bounded so that a
// runaway range ends in a report
template<class V, class X, class E> void body(X& x, E end, int tag) {
    Call c; c.arity = long(V::ARITY); c.from = (long long)x; c.stop = (long long)end; c.stream = is_stream<V>::value; c.tag = tag;
    for (; x < X(end); x += X(V::ARITY)) { if (iters.size() > 4000) break; iters.push_back(std::make_pair((long long)x, long(V::ARITY))); }
    c.after = (long long)x; calls.push_back(c);
}
template<class V, class X, class E> void body3(X& x, E end, int tag, const std::vector<int>& v, long* l) { tag_seen += long(v.size()) + *l; body<V>(x, end, tag); }

template<class V> std::string vname() { return std::string(is_stream<V>::value ? "streaming_" : "") + tn<typename cargo_of<V>::type>() + "x" + std::to_string(long(V::ARITY)); }

template<class V> void judge(const std::string& form, long long start, long long end, long long after) {
    const long W = long(V::ARITY);
    std::string k = form;
    auto msg = [&](const std::string& what) {
        std::ostringstream o; o << form << " " << vname<V>() << " start=" << start << " end=" << end << ": " << what << "; steps:";
        for (size_t i = 0; i < iters.size() && i < 40; ++i) o << " " << iters[i].first << "+" << iters[i].second;
        o << "; counter ended at " << after; return o.str(); };
    long long at = start;
    bool ok = true; long head = 0, tail = 0; bool wide = false;
    for (size_t i = 0; i < iters.size() && ok; ++i) {
        long long f = iters[i].first; long w = iters[i].second;
        vf::st().evaluations++;
        if (w != 1 && w != W) { vf::violation(k + ":width", msg("step of a foreign width")); ok = false; break; }
        if (f != at) { vf::violation(k + ":order", msg(f < at ? "iteration executed twice or out of order" : "iteration skipped")); ok = false; break; }
        if (f + w > end) { vf::violation(k + ":overrun", msg("step extends beyond the end")); ok = false; break; }
        if (w == W && W > 1) { if (f % W) { vf::violation(k + ":misaligned", msg("full-width step at an unaligned iteration")); ok = false; break; } wide = true; if (tail) { vf::violation(k + ":scalar-inside", msg("single iterations between full-width ones")); ok = false; break; } }
        if (w == 1 && W > 1) { if (wide) ++tail; else ++head; }
        at = f + w;
    }
    if (ok && start < end) vf::check_lazy(at == end, k + ":missing", [&] { return msg("iterations missing at the end"); });
    if (ok && start >= end) vf::check_lazy(iters.empty(), k + ":empty", [&] { return msg("iterations executed for an empty range"); });
    if (ok && W > 1) {
        // fewer than one vector's worth of single iterations on each side; if no
        // full-width step fits at all, at most two such sides
        long long fa = (start + W - 1) / W * W, la = end >= 0 ? end / W * W : end;
        bool fits = start < end && fa + W <= end;
        if (fits) {
            vf::check_lazy(head < W && tail < W, k + ":sides", [&] { return msg("a whole vector's worth of iterations was run one by one"); });
            long long steps = 0; for (auto& it : iters) if (it.second == W) ++steps;
            vf::check_lazy(steps == (la - fa) / W, k + ":vector-part", [&] { return msg("not all full-width steps were used"); });
        }
        vf::event(fits ? "range_with_vector_part" : "range_without_vector_part");
    }
    vf::check_lazy(after == (start < end ? end : start), k + ":counter", [&] { return msg("counter is not at the end"); });
    for (auto& c : calls) vf::check_lazy((c.arity == 1 || c.arity == W) && c.stream == is_stream<V>::value && c.tag == 77, k + ":call", [&] { return msg("function called with a foreign vector type or arguments"); });
    vf::event("iterations", uint64_t(start < end ? end - start : 0)); vf::event("ranges");
    if (start >= end) vf::event("empty_ranges");
    vf::distinct(vf::mix(vf::mix(vf::mix(vf::hash_str(form), W), uint64_t(start)), uint64_t(end)));
}

template<class V> struct peel {
    // as a template (dependent type)
    template<class C, class X> static void tmpl(const std::string& f, long long s, long long e) {
        calls.clear(); iters.clear(); X x = X(s); C end = C(e);
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, C, x, end, body, 77);
        judge<V>(f, s, e, (long long)x);
    }
    // compound expressions as arguments, several further arguments
    template<class C, class X> static void expr(const std::string& f, long long s, long long e) {
        calls.clear(); iters.clear(); tag_seen = 0; struct { X pos; } w; w.pos = X(s); C half = C(e / 2), rest = C(e - e / 2); std::vector<int> v(3); long l = 4;
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, C, w.pos, half + rest, body3, 77, v, &l);
        judge<V>(f, s, e, (long long)w.pos);
        vf::check(tag_seen == 7 * long(calls.size()), f + ":args", "arguments not passed on");
    }
    template<class C, class X> static void func(const std::string& f, long long s, long long e) {
        calls.clear(); iters.clear(); X x = X(s); const C end = C(e);
        loop_peeler<V>(&x, end, [](auto my, X* i, C stop) { typedef decltype(my) W; body<W>(*i, stop, 77); });
        judge<V>(f, s, e, (long long)x);
    }
    static void small(long S, long E) {
        for (long s = 0; s <= S; ++s) for (long e = 0; e <= E; ++e) {
            vf::step(VF_STR(vname<V>() << " " << s << ".." << e));
            tmpl<int, int>("macro-int", s, e); func<int, int>("function-int", s, e);
            func<long, long>("function-long", s, e); tmpl<long, long>("macro-long", s, e);
            func<unsigned, unsigned>("function-unsigned", s, e); tmpl<std::size_t, std::size_t>("macro-size_t", s, e);
            if (((s ^ e) & 3) == 0) {
                func<std::size_t, std::size_t>("function-size_t", s, e); func<long, int>("function-int-long", s, e); func<int, long>("function-long-int", s, e);
                tmpl<int, unsigned>("macro-int-unsigned", s, e); expr<int, int>("macro-expr-int", s, e); expr<long, long>("macro-expr-long", s, e); tmpl<short, short>("macro-short", s, e); tmpl<long, int>("macro-long-int", s, e);
            }
        }
    }
    static void random(vf::Rng& r) {
        // far from zero; the end rounded up stays representable
        static const long long base[] = {0, 100, 1000, 32000, 65530, 2147483000ll, 4294967000ll, 4294967290ll, 1ll << 33, (1ll << 53) - 7, (1ll << 62) + 1};
        long long b = base[r.below(11)], s = b + r.below(80), e = s + (r.chance(1, 8) ? -long(r.below(50)) : long(r.below(r.chance(1, 4) ? 900 : 100))); if (e < 0) e = 0;
        vf::step(VF_STR(vname<V>() << " " << s << ".." << e));
        func<long, long>("function-long", s, e); tmpl<long, long>("macro-long", s, e); func<std::size_t, std::size_t>("function-size_t", s, e); tmpl<std::size_t, std::size_t>("macro-size_t", s, e); expr<long, long>("macro-expr-long", s, e); tmpl<long long, long long>("macro-longlong", s, e);
        if (e < 2147483600 && s < 2147483600) { func<int, int>("function-int", s, e); tmpl<int, int>("macro-int", s, e); tmpl<long, int>("macro-long-int", s, e); }
        if (e < 4294967200ll && s < 4294967200ll) { func<unsigned, unsigned>("function-unsigned", s, e); tmpl<unsigned, unsigned>("macro-unsigned", s, e); }
        // unsigned counters on both sides of the sign bit
        { unsigned long long us = (1ull << 31) - r.below(90), ue = us + r.below(200); func<unsigned, unsigned>("function-unsigned", us, ue); tmpl<unsigned, unsigned>("macro-unsigned", us, ue); if (us > ue / 2) { func<unsigned, unsigned>("function-unsigned", ue, us); tmpl<unsigned, unsigned>("macro-unsigned", ue, us); } vf::event("across_sign_bit"); }
        if (s < 1000) { long long ne = -long(r.below(70)); func<long, long>("function-long", s, ne); tmpl<int, int>("macro-int", s, ne); func<int, int>("function-int", s, ne); vf::event("negative_end"); }
    }
};

// kernels doing real aligned vector work on memory which ends at a guard page
template<class V> struct work {
    typedef typename cargo_of<V>::type T;
    template<class U> static void scale(long& i, long end, T* d, const T* src) { for (; i < end; i += U::ARITY) { U v(src + i); v += U(T(3)); (d + i) << v; } }
    static void run(vf::Rng& r) {
        const long n = 1 + long(r.below(130)); long s = long(r.below(n + 3)), e = long(r.below(n + 1));
        Guard g(n * sizeof(T)); T* p = (T*)g.e - n;
        long al = 0; while (((uintptr_t)(p + al)) % 64) ++al; // index origin at an aligned element
        if (al >= n) return; T* d = p + al; long m = n - al; if (s > m) s = m; if (e > m) e = m;
        std::vector<T> src(m + 64); for (auto& x : src) x = T(r.range(-1000, 1000)); for (long i = 0; i < n; ++i) p[i] = T(7777);
        bool lambda = r.chance(1, 2); long i = s; vf::step(VF_STR("work " << vname<V>() << " m=" << m << " " << s << ".." << e));
        T* sp = src.data();
        if (lambda) loop_peeler<V>(&i, e, [d, sp](auto my, long* i, long end) { typedef decltype(my) U; scale<U>(*i, end, d, sp); });
        else { LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, long, i, e, scale, d, sp); }
        for (long k = 0; k < m; ++k) { T want = (k >= s && k < e) ? T(src[k] + 3) : T(7777); vf::check_lazy(d[k] == want, "work:" + std::string(lambda ? "function" : "macro"), [&] { return VF_STR(vname<V>() << " element " << k << " is " << d[k] << " instead of " << want << " for " << s << ".." << e); }); }
        vf::event("work_elements", m);
    }
};

// not dependent on template parameters: the plain macro
static void plain_macro(long S, long E) {
    for (long s = 0; s <= S; ++s) for (long e = 0; e <= E; ++e) {
        { typedef short_vec<double, 8> V; calls.clear(); iters.clear(); int x = int(s); LIBFLATARRAY_LOOP_PEELER(V, int, x, int(e), body, 77); judge<V>("plainmacro-int", s, e, x); }
        { typedef streaming_short_vec<float, 16> V; calls.clear(); iters.clear(); std::size_t x = s, end = e; LIBFLATARRAY_LOOP_PEELER(V, std::size_t, x, end, body, 77); judge<V>("plainmacro-size_t", s, e, (long long)x); }
        { typedef short_vec<float, 4> V; calls.clear(); iters.clear(); long x = s; LIBFLATARRAY_LOOP_PEELER(V, long, x, e, body, 77); judge<V>("plainmacro-long", s, e, x); }
    }
}

template<class V> void all() {
    vf::sample(VF_STR(vname<V>() << ": all starts 0.." << V::ARITY + 2 << " with all ends 0.." << 3 * V::ARITY + 2 << ", 11 far bases up to 2^62"));
    long W = long(V::ARITY);
    vf::scenario("small-" + vname<V>(), 1, [&](vf::Rng&) { if (vf::thorough()) peel<V>::small(2 * W + 3, 5 * W + 3); else peel<V>::small(W + 2, 3 * W + 2); });
    vf::scenario("random-" + vname<V>(), vf::scaled(2000), [](vf::Rng& r) { peel<V>::random(r); });
    vf::scenario("work-" + vname<V>(), vf::scaled(700), [](vf::Rng& r) { work<V>::run(r); });
}
template<class T> void widths() {
    all<short_vec<T, 1> >(); all<short_vec<T, 2> >(); all<short_vec<T, 4> >(); all<short_vec<T, 8> >(); all<short_vec<T, 16> >(); all<short_vec<T, 32> >();
    all<streaming_short_vec<T, 1> >(); all<streaming_short_vec<T, 4> >(); all<streaming_short_vec<T, 8> >(); all<streaming_short_vec<T, 16> >(); all<streaming_short_vec<T, 32> >();
}
VF_MAIN({
    vf::st().max_viol = 20;
#if PART == 0
    vf::scenario("plain-macro", 1, [](vf::Rng&) { plain_macro(20, 70); });
    widths<double>();
#elif PART == 1
    widths<float>();
#else
    widths<int>();
#endif
})
