// C18: registration metadata of generated cell types (see gen_c18.py).
#include "vf.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
using namespace LibFlatArray;
// every list length, metadata only
template<class L, int N> void light(int (L::**p)) {
    vf::step(VF_STR("list of " << N)); std::size_t n = number_of_members<L>::VALUE, a = aggregated_member_size<L>::VALUE;
    vf::check_lazy(n == N, "count", [&] { return VF_STR(n << " members reported for a list of " << N); });
    vf::check_lazy(a == N * sizeof(int), "aggregated-size", [&] { return VF_STR("aggregated size " << a << " for a list of " << N << " ints"); });
    for (int i = 0; i < N; ++i) { int got = -1; try { got = member_ptr_to_offset()(p[i]); } catch (std::exception&) {} vf::check_lazy(got == i * int(sizeof(int)), "offset", [&] { return VF_STR("offset " << got << " reported for int number " << i << " of " << N); }); vf::distinct(vf::mix(N, i)); }
    vf::event("light_lists"); vf::event("members", N);
}
#include "c18_types.hpp"

template<class T> struct Describe {
    std::vector<std::size_t> size, arity, offset, found; std::size_t total; std::string nm;
    Describe() : total(0) {}
    template<class M, class P> void member(long a, P ptr) {
        std::size_t n = a ? std::size_t(a) : 1;
        offset.push_back(total); size.push_back(sizeof(M)); arity.push_back(n); total += sizeof(M) * n;
        std::size_t got = ~std::size_t(0);
        try { got = std::size_t(member_ptr_to_offset()(ptr)); } catch (std::exception& e) { vf::violation("refused", VF_STR(nm << ": registered member number " << size.size() - 1 << " refused: " << e.what())); }
        found.push_back(got); vf::event(a ? "array_members" : "scalar_members");
    }
    template<class P> void decoy(P ptr) {
        vf::event("decoys"); int got = -1; std::string other;
        try { got = member_ptr_to_offset()(ptr); } catch (std::invalid_argument&) { ++vf::st().evaluations; return; } catch (std::exception& e) { other = e.what(); }
        vf::violation("decoy-accepted", VF_STR(nm << ": a member which was not registered is reported at offset " << got << " " << other));
    }
};
struct Fill { uint64_t s; template<class V> void value(V& v) { unsigned char* p = (unsigned char*)&v; vf::Rng r(++s); for (std::size_t i = 0; i < sizeof(V); ++i) p[i] = (unsigned char)(std::is_same<typename std::remove_extent<V>::type, bool>::value ? r.below(2) : std::is_floating_point<typename std::remove_extent<V>::type>::value ? 1 + r.below(90) : r.next()); clean(v); }
    template<class V> void clean(V&) {} // padding bytes are not values
    void clean(long double& v) { v = (long double)(1 + (s * 7919) % 100000) / 3; }
    template<std::size_t N> void clean(long double (&v)[N]) { for (std::size_t i = 0; i < N; ++i) v[i] = (long double)(1 + (s * 7919 + i) % 100000) / 3; }
    template<class V> void small(V& v) { v.a = float(s % 1000); v.b = float(s % 77); v.c = float(s % 13); }
    void clean(Three& v) { small(v); } void clean(Nested& v) { small(v.t); v.d[0] = double(s % 5001); v.d[1] = double(s % 49); }
    template<std::size_t N> void clean(Three (&v)[N]) { for (auto& x : v) { ++s; small(x); } } template<std::size_t N> void clean(Nested (&v)[N]) { for (auto& x : v) { ++s; clean(x); } }
};
template<class E> inline bool eq(const E& a, const E& b) { return std::memcmp(&a, &b, sizeof(E)) == 0; }
inline bool eq(long double a, long double b) { return a == b; }
inline bool eq(const Nested& a, const Nested& b) { return a.t == b.t && a.d[0] == b.d[0] && a.d[1] == b.d[1]; }
template<class E, std::size_t N> inline bool eq(const E (&a)[N], const E (&b)[N]) { for (std::size_t i = 0; i < N; ++i) if (!eq(a[i], b[i])) return false; return true; }
struct Collect { std::vector<std::string> v; template<class V> void value(V& x) { v.push_back(bytes(x)); }
    template<class V> static std::string bytes(const V& x) { return std::string((const char*)&x, sizeof(V)); }
    static std::string bytes(long double x) { return std::string((const char*)&x, 10); }
    static std::string bytes(const Nested& x) { return bytes(x.t) + bytes(x.d); }
    template<class E, std::size_t N> static std::string bytes(const E (&x)[N]) { std::string s; for (std::size_t i = 0; i < N; ++i) s += bytes(x[i]); return s; }
};
struct Addr { std::vector<char*> a; void address(char* p) { a.push_back(p); } };
template<class T> std::vector<std::string> vals(T& t) { Collect c; t.values(c); return c.v; }

template<class T> struct Kernel { const Describe<T>* d; std::string nm; long ix;
    template<class A> void operator()(A& a) {
        a += ix; Addr at; T::access(a, at);
        for (std::size_t i = 0; i < d->offset.size(); ++i) {
            char* want = a.data() + A::DIM_PROD * d->offset[i] + a.index() * d->size[i];
            vf::check_lazy(at.a[i] == want, "address", [&] { return VF_STR(nm << ": member number " << i << " of cell " << ix << " lies at byte " << at.a[i] - a.data() << " instead of " << want - a.data()); });
            char* by = a.access_member(long(d->size[i]), long(d->found[i]));
            vf::check_lazy(by == at.a[i], "address-by-offset", [&] { return VF_STR(nm << ": the reported offset of member number " << i << " leads to other memory than the member"); });
        }
        vf::event("addresses", d->offset.size());
    } };

template<class T> void run(const char* nm) {
    vf::scenario(nm, 1, [&](vf::Rng& r) {
        vf::step("metadata"); Describe<T> d; d.nm = nm; T::each(d);
        std::size_t n = number_of_members<T>::VALUE, agg = aggregated_member_size<T>::VALUE;
        vf::check_lazy(n == std::size_t(T::MEMBERS), "count", [&] { return VF_STR(nm << ": " << n << " members reported, " << int(T::MEMBERS) << " registered"); });
        vf::check_lazy(agg == d.total, "aggregated-size", [&] { return VF_STR(nm << ": aggregated size " << agg << " instead of " << d.total); });
        for (std::size_t i = 0; i < d.offset.size(); ++i) vf::check_lazy(d.found[i] == d.offset[i], "offset", [&] { return VF_STR(nm << ": offset of member number " << i << " reported as " << long(d.found[i]) << " instead of " << d.offset[i]); });
        T::others(d); vf::event("types"); vf::event("members", d.offset.size());
        if (d.offset.size() > 40) vf::event("long_lists"); if (d.offset.size() == 1) vf::event("single_member_lists");
        // the metadata is what the storage is laid out by
        vf::step("storage"); soa_grid<T> g(16, 4, 2);
        vf::check_lazy(g.byte_size() >= agg * 128, "storage-size", [&] { return VF_STR(nm << ": storage of " << g.byte_size() << " bytes for 128 cells of " << agg); });
        Kernel<T> k; k.d = &d; k.nm = nm; for (long ix : {0L, 1L, 17L, 127L}) { k.ix = ix; g.callback(k); }
        std::vector<std::vector<std::string> > model(128); uint64_t s = r.next();
        for (int i = 0; i < 128; ++i) { T t; Fill f; f.s = s + i * 1000; t.values(f); model[i] = vals(t); g.set(i % 16, i / 16 % 4, i / 64, t); }
        for (int i = 0; i < 128; ++i) { T t = g.get(i % 16, i / 16 % 4, i / 64); std::vector<std::string> v = vals(t); for (std::size_t m = 0; m < v.size(); ++m) vf::check_lazy(v[m] == model[i][m], "roundtrip", [&] { return VF_STR(nm << ": member number " << m << " of cell " << i << " differs after set/get"); }); }
        // packed block: members back to back, array elements in order
        std::vector<char> raw(agg * 16 + 8, char(0x5a)); g.save(0, 1, 0, raw.data(), 16);
        soa_grid<T> h(16, 4, 2); h.load(0, 1, 0, raw.data(), 16);
        for (int x = 0; x < 16; ++x) { T t = h.get(x, 1, 0); std::vector<std::string> v = vals(t); for (std::size_t m = 0; m < v.size(); ++m) vf::check_lazy(v[m] == model[16 + x][m], "save-load", [&] { return VF_STR(nm << ": member number " << m << " of cell " << x << " differs after save/load"); }); }
        for (int i = 0; i < 8; ++i) vf::check(raw[agg * 16 + i] == 0x5a, "save-overrun", VF_STR(nm << ": save wrote beyond the aggregated size"));
        soa_array<T, 7> arr; for (int i = 0; i < 5; ++i) { T t; Fill f; f.s = s + i * 1000; t.values(f); arr.push_back(t); }
        for (int i = 0; i < 5; ++i) { T t = arr[i]; std::vector<std::string> v = vals(t); for (std::size_t m = 0; m < v.size(); ++m) vf::check_lazy(v[m] == model[i][m], "array-roundtrip", [&] { return VF_STR(nm << ": member number " << m << " of array element " << i << " differs"); }); }
        vf::event("roundtrips", 128 * d.offset.size());
        uint64_t hsh = vf::hash_str(nm); for (std::size_t i = 0; i < d.offset.size(); ++i) { hsh = vf::mix(hsh, d.size[i] * 131 + d.arity[i]); vf::distinct(hsh); }
        vf::sample(VF_STR(nm << ": " << d.offset.size() << " members, " << d.total << " bytes per cell"));
    });
}
VF_MAIN({ vf::st().max_viol = 20; VF_RUN_ALL vf::scenario("lists", 1, [](vf::Rng&) { VF_LIGHT_ALL }); })
