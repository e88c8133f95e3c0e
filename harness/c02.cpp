// C02: storage size selection against an independent reading of the size lists;
// storage extents, byte sizes and corner accesses against guard pages.
#include "vf.hpp"
#include <sys/mman.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;
typedef std::vector<long> L;
static const L L1{32,64,128,192,256,512,544,1056,2080,4128,8224,16416,32800,65568,131104,262176,524320,1048608,2097184,4194336,8388640,16777248,33554464,67108896,134217760,268435488,536870944,1073741856};
static const L L2{32,64,128,192,256,512,544,1056,2080,4128,8224,16416,32800};
static const L L3{32,64,128,136,192,200,256,264,512,520,1032};

#define CELL(NAME, ...) struct NAME { struct API __VA_ARGS__; char v; }; LIBFLATARRAY_REGISTER_SOA(NAME, ((char)(v)))
struct CDef { char v; };
LIBFLATARRAY_REGISTER_SOA(CDef, ((char)(v)))
struct CDefArr { char v[3]; short s; };
LIBFLATARRAY_REGISTER_SOA(CDefArr, ((char)(v)(3))((short)(s)))
typedef api_traits AT;
CELL(C1, : public AT::has_default_1d_sizes {})
CELL(C2, : public AT::has_default_2d_sizes {})
CELL(C2U, : public AT::has_default_2d_sizes_uniform {})
CELL(C3, : public AT::has_default_3d_sizes {})
CELL(C3U, : public AT::has_default_3d_sizes_uniform {})
CELL(K3, : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(21)(22), (2)(9)(10), (1)(4)(17)) })
CELL(K31, : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((16)(32)(64), (16), (7)) })
CELL(K1, : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((5)(6)(100)) })
CELL(K2, : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((5)(6)(40)) })
CELL(K3U, : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(5)(6)(33)) })
// mixed-size members: byte size covers all of them
struct KM { struct API : public AT::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((4)(12), (3)(8), (2)(5)) }; double a; char b[5]; short c; float d[2]; };
LIBFLATARRAY_REGISTER_SOA(KM, ((double)(a))((char)(b)(5))((short)(c))((float)(d)(2)))

struct E3 { long x, y, z; bool ok; };
static long up(const L& l, long v) { for (long s : l) if (v <= s) return s; return -1; }
static E3 mk(long x, long y, long z) { return E3{x, y, z, x > 0 && y > 0 && z > 0}; }
static E3 per_dim(const L& a, const L& b, const L& c, long x, long y, long z) { return mk(up(a, x), up(b, y), up(c, z)); }
static E3 u1(const L& a, long x, long y, long z) { if (y != 1 || z != 1) return mk(-1, -1, -1); return mk(up(a, x), 1, 1); }
static E3 u2(const L& a, long x, long y, long z) { if (z != 1) return mk(-1, -1, -1); long s = up(a, std::max(x, y)); return mk(s, s, 1); }
static E3 u3(const L& a, long x, long y, long z) { long s = up(a, std::max(x, std::max(y, z))); return mk(s, s, s); }

template<class C> struct Exp;
template<> struct Exp<CDef> { static E3 e(long x, long y, long z) { if (y > 1 && z > 1) return u3(L3, x, y, z); if (y > 1) return u2(L2, x, y, z); return u1(L1, x, y, z); } static std::vector<L> lists() { L a = L1, b = L2; b.insert(b.end(), L3.begin(), L3.end()); b.push_back(1); L c = L3; c.push_back(1); return {a, b, c}; } };
template<> struct Exp<CDefArr> : Exp<CDef> {};
template<> struct Exp<C1> { static E3 e(long x, long y, long z) { return u1(L1, x, y, z); } static std::vector<L> lists() { return {L1, {1, 2}, {1, 2}}; } };
template<> struct Exp<C2> { static E3 e(long x, long y, long z) { return per_dim(L2, L2, {1}, x, y, z); } static std::vector<L> lists() { return {L2, L2, {1}}; } };
template<> struct Exp<C2U> { static E3 e(long x, long y, long z) { return u2(L2, x, y, z); } static std::vector<L> lists() { return {L2, L2, {1}}; } };
template<> struct Exp<C3> { static E3 e(long x, long y, long z) { return per_dim(L3, L3, L3, x, y, z); } static std::vector<L> lists() { return {L3, L3, L3}; } };
template<> struct Exp<C3U> { static E3 e(long x, long y, long z) { return u3(L3, x, y, z); } static std::vector<L> lists() { return {L3, L3, L3}; } };
template<> struct Exp<K3> { static E3 e(long x, long y, long z) { return per_dim({3,8,21,22}, {2,9,10}, {1,4,17}, x, y, z); } static std::vector<L> lists() { return {{3,8,21,22}, {2,9,10}, {1,4,17}}; } };
template<> struct Exp<K31> { static E3 e(long x, long y, long z) { return per_dim({16,32,64}, {16}, {7}, x, y, z); } static std::vector<L> lists() { return {{16,32,64}, {16}, {7}}; } };
template<> struct Exp<K1> { static E3 e(long x, long y, long z) { return u1({5,6,100}, x, y, z); } static std::vector<L> lists() { return {{5,6,100}, {1}, {1}}; } };
template<> struct Exp<K2> { static E3 e(long x, long y, long z) { return u2({5,6,40}, x, y, z); } static std::vector<L> lists() { return {{5,6,40}, {5,6,40}, {1}}; } };
template<> struct Exp<K3U> { static E3 e(long x, long y, long z) { return u3({2,5,6,33}, x, y, z); } static std::vector<L> lists() { return {{2,5,6,33}, {2,5,6,33}, {2,5,6,33}}; } };
template<> struct Exp<KM> { static E3 e(long x, long y, long z) { return per_dim({4,12}, {3,8}, {2,5}, x, y, z); } static std::vector<L> lists() { return {{4,12}, {3,8}, {2,5}}; } };

struct rec {
    long* out; char* data;
    template<class C, long X, long Y, long Z, long I>
    void operator()(soa_accessor<C, X, Y, Z, I>& a) const {
        typedef soa_accessor<C, X, Y, Z, I> A;
        ++out[0]; out[1] = X; out[2] = Y; out[3] = Z; out[4] = a.data() == data; out[5] = a.index();
        out[6] = A::DIM_PROD; out[7] = A::DIM_X; out[8] = A::DIM_Y; out[9] = A::DIM_Z;
    }
};

static L around(const L& l) { std::set<long> s{1, 2}; for (long v : l) { if (v > 1) s.insert(v - 1); s.insert(v); s.insert(v + 1); } return L(s.begin(), s.end()); }

template<class C> void select_one(const char* n, long x, long y, long z) {
    E3 e = Exp<C>::e(x, y, z);
    static char dummy[4];
    long o[10] = {0};
    rec f{o, dummy};
    std::string K = std::string("select:") + n;
    std::string what = "none";
    try { typename AT::select_sizes<C> sel; sel((char*)dummy, f, std::size_t(x), std::size_t(y), std::size_t(z)); }
    catch (std::out_of_range&) { what = "out_of_range"; }
    catch (std::exception& ex) { what = ex.what(); }
    auto d = [&] { return VF_STR(n << " request " << x << "x" << y << "x" << z << ": invoked " << o[0] << "x with " << o[1] << "x" << o[2] << "x" << o[3] << ", exception " << what << "; expected " << (e.ok ? VF_STR(e.x << "x" << e.y << "x" << e.z) : std::string("out_of_range"))); };
    if (e.ok) {
        vf::check_lazy(what == "none" && o[0] == 1 && o[1] == e.x && o[2] == e.y && o[3] == e.z, K, d);
        vf::check_lazy(o[4] == 1 && o[5] == 0 && o[6] == e.x * e.y * e.z && o[7] == o[1] && o[8] == o[2] && o[9] == o[3], K + ":accessor", d);
        vf::event("bound");
    } else { vf::check_lazy(what == "out_of_range" && o[0] == 0, K + ":refusal", d); vf::event("refused"); }
    vf::distinct(vf::mix(vf::hash_str(n), vf::mix(vf::mix(x, y), z)));
}

template<class C> void select_all(const char* n, uint64_t rnd) {
    vf::scenario(std::string("select-") + n, 1, [&](vf::Rng& r) {
        std::vector<L> l = Exp<C>::lists();
        L xs = around(l[0]), ys = around(l[1]), zs = around(l[2]);
        // exhaustive over boundary combinations
        for (long x : xs) for (long y : ys) for (long z : zs) select_one<C>(n, x, y, z);
        for (uint64_t i = 0; i < vf::scaled(rnd); ++i) {
            auto any = [&](const L& v) { long m = *std::max_element(v.begin(), v.end()); switch (r.below(4)) { case 0: return r.range(1, m + 2); case 1: return r.range(1, std::min<long>(m, 300)); case 2: return long(r.pick(v)); default: return r.range(1, 3) == 1 ? 1L : long(std::pow(double(m), r.unit())); } };
            select_one<C>(n, any(xs), any(ys), any(zs));
        }
        for (long big : {1L << 31, (1L << 32) + 1, 1L << 40, -1L}) { select_one<C>(n, big < 0 ? 1 : big, 1, 1); }
        vf::sample(VF_STR(n << ": " << xs.size() * ys.size() * zs.size() << " boundary triples"));
    });
}

// lazily committed allocator with a guard page right behind (and before) the storage
struct Led { std::map<char*, std::pair<char*, std::size_t> > m; std::size_t last = 0; };
static Led& led() { static Led l; return l; }
template<class T> struct page_allocator {
    T* allocate(std::size_t n) {
        std::size_t pg = 4096, body = (n + pg - 1) / pg * pg, tot = body + 2 * pg;
        char* p = (char*)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
        mprotect(p, pg, PROT_NONE); mprotect(p + pg + body, pg, PROT_NONE);
        char* q = p + pg + (body - n); // ends at the guard page
        led().m[q] = std::make_pair(p, tot); led().last = n;
        return (T*)q;
    }
    void deallocate(T* q, std::size_t) { auto it = led().m.find((char*)q); if (it == led().m.end()) { vf::violation("page-allocator:unknown", "release of unknown block"); return; } munmap(it->second.first, it->second.second); led().m.erase(it); }
};

template<class C> void grid_one(const char* n, long x, long y, long z, vf::Rng& r) {
    typedef soa_grid<C, page_allocator<char> > G;
    std::string K = std::string("grid:") + n;
    E3 e = Exp<C>::e(x, y, z);
    vf::step(VF_STR(n << " grid " << x << "x" << y << "x" << z));
    G g(1, 1, 1);
    bool via_ctor = r.chance(1, 2);
    std::string what = "none";
    std::size_t b0 = g.byte_size(), e0 = g.extent_x();
    try { if (via_ctor) { G h(x, y, z); g.swap(h); } else g.resize(x, y, z); }
    catch (std::out_of_range&) { what = "out_of_range"; } catch (std::exception& ex) { what = ex.what(); }
    auto d = [&] { return VF_STR(n << " grid " << x << "x" << y << "x" << z << ": extents " << g.extent_x() << "x" << g.extent_y() << "x" << g.extent_z() << " bytes " << g.byte_size() << " exception " << what); };
    if (!e.ok) {
        vf::check_lazy(what == "out_of_range" && g.dim_x() == 1 && g.dim_y() == 1 && g.dim_z() == 1 && g.byte_size() == b0 && g.extent_x() == e0, K + ":refusal", d);
        vf::event("grid_refused");
        return;
    }
    std::size_t want = aggregated_member_size<C>::VALUE * std::size_t(e.x) * std::size_t(e.y) * std::size_t(e.z);
    vf::check_lazy(what == "none" && long(g.dim_x()) == x && long(g.dim_y()) == y && long(g.dim_z()) == z, K + ":dims", d);
    vf::check_lazy(long(g.extent_x()) == e.x && long(g.extent_y()) == e.y && long(g.extent_z()) == e.z, K + ":extents", d);
    vf::check_lazy(g.byte_size() == want && led().m.count(g.data()), K + ":bytes", d);
    long o[10] = {0};
    rec f{o, g.data()};
    g.callback(f);
    vf::check_lazy(o[0] == 1 && o[1] == e.x && o[2] == e.y && o[3] == e.z && o[4] == 1 && o[5] == 0, K + ":kernel-size", d);
    // corners (also through the const interface) must be inside the storage and distinct
    std::set<std::array<long, 3> > cs;
    for (int c = 0; c < 8; ++c) cs.insert({{c & 1 ? x - 1 : 0, c & 2 ? y - 1 : 0, c & 4 ? z - 1 : 0}});
    int k = 1;
    for (auto& c : cs) { C v; std::memset((void*)&v, k++, sizeof v); g.set(c[0], c[1], c[2], v); }
    k = 1;
    for (auto& c : cs) { C v; std::memset((void*)&v, k++, sizeof v); C w = const_cast<const G&>(g).get(c[0], c[1], c[2]); vf::check_lazy(*(const char*)&w == *(const char*)&v, K + ":corner", d); }
    vf::event("grid_bound"); vf::event("corners", cs.size());
    vf::distinct(vf::mix(vf::hash_str(K), vf::mix(vf::mix(x, y), z)));
}

template<class C> void grids(const char* n, uint64_t cases, long limit) {
    vf::scenario(std::string("grid-") + n, vf::scaled(cases), [&](vf::Rng& r) {
        std::vector<L> l = Exp<C>::lists();
        L xs = around(l[0]), ys = around(l[1]), zs = around(l[2]);
        for (int t = 0; t < 200; ++t) {
            long x = r.pick(xs), y = r.pick(ys), z = r.pick(zs);
            if (r.chance(1, 3)) x = r.range(1, 4);
            if (r.chance(1, 3)) y = r.range(1, 4);
            if (r.chance(1, 3)) z = r.range(1, 4);
            E3 e = Exp<C>::e(x, y, z);
            // bound the number of cells constructed and the storage mapped
            if (double(x) * y * z > limit || (e.ok && double(e.x) * e.y * e.z * aggregated_member_size<C>::VALUE > 6e9)) continue;
            grid_one<C>(n, x, y, z, r);
            return;
        }
    });
}
#ifndef PART
#define PART 0
#endif
VF_MAIN({
#if PART == 0
    select_all<CDef>("default", 20000); select_all<C1>("1d", 5000); select_all<C2>("2d", 20000); select_all<C2U>("2du", 5000); select_all<C3U>("3du", 20000);
    select_all<K3>("k3", 5000); select_all<K31>("k31", 2000); select_all<K1>("k1", 1000); select_all<K2>("k2", 1000); select_all<K3U>("k3u", 3000);
    select_all<KM>("km", 1000); select_all<CDefArr>("default-arr", 20000);
#elif PART == 1
    select_all<C3>("3d", 60000);
#else
    grids<CDef>("default", 60, 300000); grids<C1>("1d", 40, 1100000); grids<C2U>("2du", 30, 200000); grids<C3U>("3du", 30, 200000);
    grids<CDefArr>("default-arr", 40, 100000);
    grids<K3>("k3", 200, 100000); grids<K31>("k31", 60, 100000); grids<K1>("k1", 60, 100000); grids<K2>("k2", 60, 100000); grids<K3U>("k3u", 100, 100000); grids<KM>("km", 100, 100000);
    vf::check(led().m.empty(), "grid:leak", "storage blocks not released");
#endif
})
