// C19: automatic selection of vector types, reported alignments.
#include "sv.hpp"
#include "guard.hpp"
#include <libflatarray/alignment.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <libflatarray/ilp_to_arity.hpp>
#include <libflatarray/aligned_allocator.hpp>
#ifndef VF_BITS
#error VF_BITS
#endif
// bits of one native register of the instruction set of this build; 0: scalar
template<class T> constexpr std::size_t native() { return VF_BITS ? VF_BITS / 8 / sizeof(T) : 1; }

struct C4 { float v; };
struct C12 { float a; double b; };   // sizeof 16
struct C48 { double a[6]; };
struct C1 { char c; };
LIBFLATARRAY_REGISTER_SOA(C4, ((float)(v)))
LIBFLATARRAY_REGISTER_SOA(C12, ((float)(a))((double)(b)))
LIBFLATARRAY_REGISTER_SOA(C48, ((double)(a)(6)))
LIBFLATARRAY_REGISTER_SOA(C1, ((char)(c)))

template<class V> struct info;
template<class T, std::size_t N> struct info<short_vec<T, N> > { typedef T cargo; static const std::size_t n = N; static const bool stream = false; };
template<class T, std::size_t N> struct info<streaming_short_vec<T, N> > { typedef T cargo; static const std::size_t n = N; static const bool stream = true; };

// the type does its job on memory aligned exactly as reported and no better
template<class V> void usable(const std::string& k, vf::Rng& r) {
    typedef typename info<V>::cargo T; const int N = int(info<V>::n); const std::size_t A = alignment<V>::VALUE;
    Guard in(4096), out(4096); std::size_t bytes = sizeof(T) * N;
    // flush to the end where the alignment allows, elsewhere otherwise, never better aligned than A
    for (int rep = 0; rep < 6; ++rep) {
        std::size_t off = 4096 - bytes - A * r.below(4); off -= off % A; if (off % (2 * A) == 0) off -= A;
        std::size_t off2 = A * (1 + 2 * r.below((4096 - bytes) / A / 2));
        T* p = (T*)(in.b + off); T* q = (T*)(out.b + off2); in.fill(r); out.fill(r);
        for (int i = 0; i < N; ++i) p[i] = T(int(r.range(-1000, 1000)));
        std::vector<char> before = out.copy();
        vf::step(VF_STR(k << " source at " << off << " target at " << off2));
        V v; v.load_aligned(p); v += V(T(1));
        int form = rep % 3; if (form == 0) v.store_aligned(q); else if (form == 1) v.store_nt(q); else q << v;
        for (int i = 0; i < N; ++i) { T want = p[i] + T(1); vf::check_lazy(q[i] == want, k + ":use", [&] { return VF_STR("lane " << i << " is " << q[i] << " instead of " << want); }); std::memcpy(&before[off2 + i * sizeof(T)], &q[i], sizeof(T)); }
        vf::check(std::memcmp(before.data(), out.b, 4096) == 0, k + ":stray", "memory outside the lanes changed");
        vf::event("aligned_uses");
    }
}
template<class V> void align_of(vf::Rng& r) {
    typedef typename info<V>::cargo T; const std::size_t N = info<V>::n, A = alignment<V>::VALUE;
    std::string k = std::string(info<V>::stream ? "streaming_" : "") + tn<T>() + "x" + std::to_string(N);
    const std::size_t reg = VF_BITS ? VF_BITS / 8 : sizeof(T);
    vf::check_lazy(A >= sizeof(T) && (A & (A - 1)) == 0, k + ":alignment", [&] { return VF_STR("alignment " << A << " is no multiple of the element size or no power of two"); });
    vf::check_lazy(A <= reg && A <= sizeof(T) * N, k + ":alignment-large", [&] { return VF_STR("alignment " << A << " exceeds the register size " << reg << " or the vector size"); });
    vf::check_lazy(std::size_t(alignment<V>::VALUE) == std::size_t(alignment<short_vec<T, N> >::VALUE), k + ":alignment-flavour", [&] { return std::string("alignment differs between streaming and ordinary flavour"); });
    usable<V>(k, r);
    // through the allocator, the way the library is used
    std::vector<T, aligned_allocator<T, alignment<V>::VALUE> > buf(4 * N); vf::check(std::size_t(buf.data()) % A == 0, k + ":allocator", "allocator does not honour the reported alignment");
    for (std::size_t i = 0; i < 4 * N; ++i) buf[i] = T(i); for (std::size_t i = 0; i < 4 * N; i += N) { V v; v.load_aligned(&buf[i]); v += v; &buf[i] << v; } for (std::size_t i = 0; i < 4 * N; ++i) vf::check(buf[i] == T(2 * i), k + ":allocator-use", "wrong value");
    vf::event("alignments"); vf::distinct(vf::hash_str("align" + k));
}
template<class T> void aligns(vf::Rng& r) {
    align_of<short_vec<T, 1> >(r); align_of<short_vec<T, 2> >(r); align_of<short_vec<T, 4> >(r); align_of<short_vec<T, 8> >(r); align_of<short_vec<T, 16> >(r); align_of<short_vec<T, 32> >(r);
    align_of<streaming_short_vec<T, 1> >(r); align_of<streaming_short_vec<T, 2> >(r); align_of<streaming_short_vec<T, 4> >(r); align_of<streaming_short_vec<T, 8> >(r); align_of<streaming_short_vec<T, 16> >(r); align_of<streaming_short_vec<T, 32> >(r);
}
template<class T, std::size_t ILP> void arity_only(const char* t) {
    std::size_t got = ilp_to_arity<T, ILP>::ARITY, want = ILP * native<T>();
    vf::check_lazy(got == want, std::string("ilp:") + t, [&] { return VF_STR(t << " ILP " << ILP << ": arity " << got << " instead of " << want); }); vf::event("ilp_arities"); vf::distinct(vf::mix(vf::hash_str(t), ILP));
}
template<class T> void arities(const char* t) { arity_only<T, 1>(t); arity_only<T, 2>(t); arity_only<T, 3>(t); arity_only<T, 4>(t); arity_only<T, 5>(t); arity_only<T, 7>(t); arity_only<T, 8>(t); arity_only<T, 16>(t); arity_only<T, 32>(t); arity_only<T, 100>(t); }

template<class T, class ACC, int U, int LLC, bool USE> struct est_use { template<class E> static void go(const std::string& k, vf::Rng& r) { usable<typename E::VALUE>(k, r); } };
template<class T, class ACC, int U, int LLC> struct est_use<T, ACC, U, LLC, false> { template<class E> static void go(const std::string&, vf::Rng&) {} };
template<class E, class T, class CELL, int U> void est_check(std::size_t prod, std::size_t llc, vf::Rng& r, const char* what) {
    typedef typename E::VALUE V; std::size_t ws = prod * sizeof(CELL); bool want = ws >= llc;
    std::string k = VF_STR("estimate:" << tn<T>() << ":u" << U << ":" << what);
    vf::check_lazy(std::size_t(E::ARITY) == U * native<T>() && info<V>::n == U * native<T>(), k + ":width", [&] { return VF_STR("width " << info<V>::n << " (reported " << std::size_t(E::ARITY) << ") instead of " << U * native<T>()); });
    vf::check_lazy(std::is_same<typename info<V>::cargo, T>::value, k + ":type", [&] { return std::string("foreign element type"); });
    vf::check_lazy(info<V>::stream == want, k + ":streaming", [&] { return VF_STR((info<V>::stream ? "streaming" : "ordinary") << " flavour for a working set of " << ws << " bytes and a cache of " << llc); });
    vf::event(want ? "estimate_streaming" : "estimate_ordinary"); vf::distinct(vf::mix(vf::mix(vf::hash_str(k), prod), llc)); (void)r;
}
template<class T, class CELL, long X, long Y, long Z, int U, int LLC> void est(vf::Rng& r) {
    typedef soa_accessor<CELL, X, Y, Z, 0> A; typedef estimate_optimum_short_vec_type<T, A, U, LLC> E; est_check<E, T, CELL, U>(std::size_t(X) * Y * Z, LLC, r, "given");
    typedef const_soa_accessor<CELL, X, Y, Z, 0> CA; typedef estimate_optimum_short_vec_type<T, CA, U, LLC> CE; est_check<CE, T, CELL, U>(std::size_t(X) * Y * Z, LLC, r, "given-const");
}
template<class T, class CELL, long X, long Y, long Z> void est_default(vf::Rng& r) {
    typedef soa_accessor<CELL, X, Y, Z, 0> A; typedef estimate_optimum_short_vec_type<T, A> E; est_check<E, T, CELL, 2>(std::size_t(X) * Y * Z, std::size_t(1) << 25, r, "default");
}
// smallest/larger unroll factors with vector types which exist for every native width
template<class T, int U, bool OK> struct ests { static void run(vf::Rng& r) {
    // around the threshold, in one and in three dimensions
    est<T, C4, 1023, 1, 1, U, 4096>(r); est<T, C4, 1024, 1, 1, U, 4096>(r); est<T, C4, 1025, 1, 1, U, 4096>(r); est<T, C4, 31, 33, 1, U, 4096>(r); est<T, C4, 16, 16, 4, U, 4096>(r); est<T, C4, 8, 8, 16, U, 4096>(r); est<T, C4, 1, 1, 1, U, 4096>(r); est<T, C4, 4096, 64, 1, U, 4096>(r);
    est<T, C12, 255, 1, 1, U, 4096>(r); est<T, C12, 256, 1, 1, U, 4096>(r); est<T, C12, 8, 8, 4, U, 4096>(r); est<T, C12, 8, 8, 3, U, 4096>(r);
    est<T, C48, 64, 64, 64, U, (1 << 24)>(r); est<T, C48, 86, 1, 1, U, 4096>(r); est<T, C48, 85, 1, 1, U, 4096>(r); est<T, C1, 1024, 1024, 1024, U, (1 << 30)>(r); est<T, C1, 1024, 1024, 1023, U, (1 << 30)>(r); est<T, C1, 2048, 2048, 2048, U, (1 << 30)>(r); est<T, C48, 8192, 8192, 64, U, (1 << 30)>(r); est<T, C4, 1, 1, 1, U, 1>(r); est<T, C4, 1, 1, 1, U, 4>(r); est<T, C4, 1, 1, 1, U, 5>(r);
    usable<typename estimate_optimum_short_vec_type<T, soa_accessor<C4, 8, 1, 1, 0>, U, 4096>::VALUE>("estimate-use-ordinary", r);
    usable<typename estimate_optimum_short_vec_type<T, soa_accessor<C4, 8192, 1, 1, 0>, U, 4096>::VALUE>("estimate-use-streaming", r);
    vf::event("unroll_factors"); vf::sample(VF_STR(tn<T>() << " unroll " << U << " on " VF_ISA ": width " << U * native<T>() << ", working sets around 4096, 2^24, 2^30 bytes")); } };
template<class T, int U> struct ests<T, U, false> { static void run(vf::Rng&) {} };
template<class T> void estimates(vf::Rng& r) {
    ests<T, 1, true>::run(r); ests<T, 2, (2 * native<T>() <= 32)>::run(r); ests<T, 4, (4 * native<T>() <= 32)>::run(r); ests<T, 8, (8 * native<T>() <= 32)>::run(r); ests<T, 16, (16 * native<T>() <= 32)>::run(r);
    est_default<T, C4, 8, 1, 1>(r); est_default<T, C4, 256, 256, 128>(r); est_default<T, C4, 256, 256, 127>(r); est_default<T, C12, 128, 128, 128>(r); est_default<T, C12, 128, 128, 127>(r); est_default<T, C48, 1024, 1024, 1024>(r); est_default<T, C1, 32, 1024, 1024>(r); est_default<T, C1, 33554431, 1, 1>(r);
}
VF_MAIN({
    vf::st().max_viol = 20;
    vf::scenario("alignment", vf::scaled(60), [](vf::Rng& r) { aligns<float>(r); aligns<double>(r); aligns<int>(r); });
    vf::scenario("ilp", 1, [](vf::Rng&) { arities<float>("float"); arities<double>("double"); arities<int>("int"); arities<char>("char"); arities<short>("short"); arities<long>("long"); });
    vf::scenario("estimate", vf::scaled(30), [](vf::Rng& r) { estimates<float>(r); estimates<double>(r); estimates<int>(r); });
})
