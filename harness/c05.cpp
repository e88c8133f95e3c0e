// C05: lifetimes of member objects in all three containers.
#include "vf_alloc.hpp"
#include <climits>
#include <memory>
#include "lifecells.hpp"
using namespace LibFlatArray;
static const long F = LONG_MIN; // fresh
static const int OBJS = 5;      // instrumented objects per cell

template<class C> struct all_alive {
    long X, Y, Z; const char* who; bool read;
    template<class A> void operator()(A& acc) const {
        for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) for (long x = 0; x < X; ++x) {
            acc.index() = A::gen_index(x, y, z);
            bool ok = life::alive(&acc.a()) && life::alive(&acc.d()); for (int k = 0; k < 3; ++k) ok = ok && life::alive(&acc.b()[k]);
            vf::check_lazy(ok, std::string(who) + ":cell-not-constructed", [&] { return VF_STR("member of cell " << x << "," << y << "," << z << " of " << X << "x" << Y << "x" << Z << " is not alive; " << vf::st().step); });
            if (read && ok) { acc.a().get(); acc.d().get(); for (int k = 0; k < 3; ++k) acc.b()[k].get(); }
        }
    }
};

template<class C> struct GM { std::unique_ptr<soa_grid<C> > g; long x = 0, y = 0, z = 0; std::vector<long> v; long& at(long a, long b, long c) { return v[(c * y + b) * x + a]; } };

struct Strk { long origin[3]; long n; std::size_t length() const { return n; } };

template<class C> void grid_history(vf::Rng& r, const char* nm, long mx, long my, long mz) {
    life::reg().ctx = std::string("grid-") + nm;
    const std::string K = std::string("grid-") + nm;
    std::size_t live0 = life::reg().live.size();
    unsigned long c0 = life::reg().constructed, d0 = life::reg().destroyed;
    {
        std::vector<GM<C> > p(3);
        for (auto& m : p) m.g.reset(new soa_grid<C>());
        std::string log;
        long tick = r.range(1, 1000);
        auto rs = [&](GM<C>& m, long x, long y, long z) { m.g->resize(x, y, z); if (x != m.x || y != m.y || z != m.z) { m.x = x; m.y = y; m.z = z; m.v.assign(x * y * z, F); } };
        int steps = int(r.range(5, 25));
        for (int s = 0; s < steps; ++s) {
            int ia = int(r.below(3)), ib = int(r.below(3));
            GM<C>& a = p[ia]; GM<C>& b = p[ib];
            unsigned op = unsigned(r.below(12));
            if (s < 2) op = 0;
            log += VF_STR(" " << op << "(" << ia << "," << ib << ")");
            vf::step(K + log);
            switch (op) {
            case 0: rs(a, r.range(1, mx), r.range(1, my), r.range(1, mz)); vf::event("grid_resize"); break;
            case 1: { std::unique_ptr<soa_grid<C> > n(new soa_grid<C>(*b.g)); GM<C> t; t.x = b.x; t.y = b.y; t.z = b.z; t.v = b.v; t.g.swap(n); if (ia != ib || true) { a.g.swap(t.g); a.x = t.x; a.y = t.y; a.z = t.z; a.v = t.v; } vf::event("grid_copy"); break; }
            case 2: *a.g = *b.g; a.x = b.x; a.y = b.y; a.z = b.z; { std::vector<long> t = b.v; a.v = t; } vf::event("grid_assign"); break;
            case 3: a.g->swap(*b.g); if (ia != ib) { std::swap(a.x, b.x); std::swap(a.y, b.y); std::swap(a.z, b.z); std::swap(a.v, b.v); } vf::event("grid_swap"); break;
            case 4: if (r.chance(1, 3)) { rs(a, 0, 0, 0); vf::event("grid_empty"); } break;
            case 5: if (a.x) { all_alive<C> f{a.x, a.y, a.z, K.c_str(), true}; a.g->callback(f); vf::event("grid_kernel"); } break;
            case 6: if (a.x) { // raw transfer between constructed storages: source is a full 1D-like row storage
                    soa_grid<C> src(4, 1, 1); long ex = long(src.extent_x()); src.resize(ex, long(src.extent_y()), long(src.extent_z()));
                    long n = std::min(ex, a.x); long x = r.below(a.x - n + 1), y = r.below(a.y), z = r.below(a.z);
                    std::vector<long> vals; for (long i = 0; i < n; ++i) { C c(++tick); src.set(i, 0, 0, c); vals.push_back(tick); }
                    long prod = long(src.extent_x() * src.extent_y() * src.extent_z());
                    Strk k[2] = {{{x, y, z}, n}, {{0, 0, 0}, 0}};
                    a.g->load(k + 0, k + 1, src.data(), prod);
                    for (long i = 0; i < n; ++i) a.at(x + i, y, z) = vals[i];
                    // and back out into constructed storage
                    const soa_grid<C>& cg = *a.g; cg.save(k + 0, k + 1, src.data(), prod);
                    for (long i = 0; i < n; ++i) vf::check(matches(src.get(i, 0, 0), vals[i]), K + ":raw-save", "raw save delivered wrong member values");
                    vf::event("grid_raw");
                } break;
            default: if (a.x) {
                    long x = r.below(a.x), y = r.below(a.y), z = r.below(a.z), n = r.range(0, a.x - x);
                    C c(++tick);
                    if (r.chance(1, 3)) { a.g->set(x, y, z, c); a.at(x, y, z) = tick; }
                    else if (r.chance(1, 2)) { a.g->broadcast(x, y, z, c, n); for (long i = 0; i < n; ++i) a.at(x + i, y, z) = tick; }
                    else { std::vector<C> cs(n, c); a.g->set(x, y, z, cs.data(), n); for (long i = 0; i < n; ++i) a.at(x + i, y, z) = tick; }
                    vf::event("grid_write");
                }
            }
            // every grid: all cells alive, values right
            for (auto& m : p) {
                if (!m.x) continue;
                all_alive<C> f{m.x, m.y, m.z, K.c_str(), false}; m.g->callback(f);
                const soa_grid<C>& cg = *m.g;
                std::vector<C> row(m.x);
                long y = r.below(m.y), z = r.below(m.z);
                cg.get(0, y, z, row.data(), m.x);
                for (long x = 0; x < m.x; ++x) vf::check_lazy(matches(row[x], m.at(x, y, z)), K + ":value", [&] { return VF_STR("wrong member values in cell " << x << "," << y << "," << z << log); });
            }
        }
        vf::distinct(vf::hash_str(K + log));
        if (vf::st().case_index < 1) vf::sample(K + log);
    }
    vf::check_lazy(life::reg().live.size() == live0, K + ":leaked-objects", [&] { return VF_STR(life::reg().live.size() - live0 << " member objects still alive after all containers died; " << vf::st().step); });
    vf::check_lazy(life::reg().constructed - c0 == life::reg().destroyed - d0, K + ":balance", [&] { return VF_STR("constructed " << life::reg().constructed - c0 << " destroyed " << life::reg().destroyed - d0 << "; " << vf::st().step); });
    life::reg().live.clear();
}

// every length of each axis
LIFE_CELL(LW, public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(70), (2)(70), (2)(70)) })
void grid_sweep(vf::Rng& r) {
    const std::string K = "grid-LW"; life::reg().ctx = K;
    long n = long(vf::st().case_index % 70) + 1, ax = long(vf::st().case_index / 70 % 3), d[3] = {r.range(1, 2), r.range(1, 2), r.range(1, 2)}; d[ax] = n;
    std::size_t live0 = life::reg().live.size(); std::string log = VF_STR(K << " " << d[0] << "x" << d[1] << "x" << d[2]); vf::step(log);
    {
        typedef soa_grid<LW> G;
        std::unique_ptr<G> g(new G(d[0], d[1], d[2])); std::vector<long> v(d[0] * d[1] * d[2], F); long tick = r.range(1, 1000);
        auto look = [&](G& g, const char* what) { vf::step(log + " " + what); all_alive<LW> f{d[0], d[1], d[2], K.c_str(), true}; g.callback(f); for (long i = 0; i < long(v.size()); ++i) { LW c = static_cast<const G&>(g).get(i % d[0], i / d[0] % d[1], i / d[0] / d[1]); vf::check_lazy(matches(c, v[i]), K + ":value", [&] { return VF_STR("cell " << i << " " << vf::st().step); }); } };
        look(*g, "fresh");
        for (long i = 0; i < long(v.size()); ++i) { v[i] = ++tick; g->set(i % d[0], i / d[0] % d[1], i / d[0] / d[1], LW(tick)); }
        G c(*g); look(c, "copy"); G e; e = *g; look(e, "assigned"); e = c; look(e, "assigned again");
        g->resize(1, 1, 1); look(c, "source resized"); g->resize(d[0], d[1], d[2]); if (v.size() > 1) { std::vector<long> w(v.size(), F); v.swap(w); look(*g, "resized"); v.swap(w); }
        g->swap(c); look(*g, "swapped"); c.resize(0, 0, 0); e.resize(2, 1, 2); g.reset(); vf::event("grid_swept_lengths"); vf::distinct(vf::hash_str(log));
    }
    vf::check_lazy(life::reg().live.size() == live0, K + ":leaked-objects", [&] { return VF_STR(life::reg().live.size() - live0 << " member objects still alive after all containers died; " << log); });
    life::reg().live.clear();
}
template<int N> struct AM { soa_array<LV, N> a; std::vector<long> v; };
template<int N> bool arr_ok(soa_array<LV, N>& a, const std::vector<long>& v, const std::string& K) {
    bool ok = vf::check(a.size() == v.size(), K + ":size", "array size differs");
    if (!ok) return false;
    for (std::size_t i = 0; i < v.size(); ++i) { LV c = a[int(i)]; vf::check(matches(c, v[i]), K + ":value", vf::st().step); }
    // every slot up to the capacity is a live object (destroyed with the array)
    std::size_t n = life::live_in((const char*)&a, sizeof a);
    vf::check_lazy(n == std::size_t(N * OBJS), K + ":slots", [&] { return VF_STR("array of capacity " << N << " holds " << n << " live member objects; " << vf::st().step); });
    return true;
}
template<int N, int M> void array_history(vf::Rng& r) {
    const std::string K = VF_STR("array-" << N << "-" << M);
    life::reg().ctx = K;
    std::size_t live0 = life::reg().live.size();
    {
        std::unique_ptr<AM<N> > a(new AM<N>), b(new AM<N>); std::unique_ptr<AM<M> > o(new AM<M>);
        std::string log; long tick = r.range(1, 1000);
        int steps = int(r.range(4, 24));
        for (int s = 0; s < steps; ++s) {
            unsigned op = unsigned(r.below(14));
            log += VF_STR(" " << op); vf::step(K + log);
            switch (op) {
            case 0: case 1: case 2: for (int k = N > 100 ? int(r.range(1, N)) : 1; k > 0; --k) if (a->v.size() < N) { if (r.chance(1, 2)) a->a << LV(++tick); else a->a.push_back(LV(++tick)); a->v.push_back(tick); } break;
            case 3: if (!a->v.empty()) { a->a.pop_back(); a->v.pop_back(); } break;
            case 4: a->a.clear(); a->v.clear(); break;
            case 5: b->a = a->a; b->v = a->v; vf::event("array_assign"); break;
            case 6: { const soa_array<LV, N>& ca = b->a; a->a = ca; a->v = b->v; break; }
            case 7: { using std::swap; swap(a->a, b->a); a->v.swap(b->v); vf::event("array_swap"); break; }
            case 8: if (a->v.size() <= std::size_t(M)) { o->a = a->a; o->v = a->v; } break;
            case 9: if (o->v.size() <= std::size_t(N)) { const soa_array<LV, M>& co = o->a; soa_array<LV, N> t(co); a->a = t; a->v = o->v; vf::event("array_convert"); } break;
            case 10: { soa_array<LV, N> t(a->a); arr_ok<N>(t, a->v, K); b->a = soa_array<LV, N>(t); b->v = a->v; vf::event("array_copy"); break; }
            case 11: { std::size_t n = r.below(N + 1); LV val(++tick); soa_array<LV, N> t(n, val); arr_ok<N>(t, std::vector<long>(n, tick), K); break; }
            case 12: if (!o->v.empty()) { std::size_t from = r.below(o->v.size()), n = r.below(o->v.size() - from + 1); if (a->v.size() + n <= N) { a->a.load(o->a[int(from)], n); a->v.insert(a->v.end(), o->v.begin() + from, o->v.begin() + from + n); vf::event("array_load"); } } break;
            case 13: if (!a->v.empty()) { std::size_t i = r.below(a->v.size()); a->a[int(i)] = LV(++tick); a->v[i] = tick; } break;
            }
            arr_ok<N>(a->a, a->v, K); arr_ok<N>(b->a, b->v, K); arr_ok<M>(o->a, o->v, K);
            vf::event("array_step");
        }
        vf::distinct(vf::hash_str(K + log));
        if (vf::st().case_index < 1) vf::sample(K + log);
    }
    vf::check(life::reg().live.size() == live0, K + ":leaked-objects", "member objects alive after the array died");
    life::reg().live.clear();
}

template<class V> void vec_ok(const V& v, const std::vector<long>& m, const std::string& K) {
    if (!vf::check(v.size() == m.size() && v.capacity() >= m.size(), K + ":size", vf::st().step)) return;
    for (std::size_t i = 0; i < m.size(); ++i) { if (m[i] == F + 1) continue; LV c = v.get(i); vf::check(matches(c, m[i]), K + ":value", vf::st().step); }
    if (v.capacity()) { all_alive<LV> f{long(v.capacity()), 1, 1, "vector", false}; const_cast<V&>(v).callback(f); }
}
// F: fresh default, F+1: unspecified
void vector_history(vf::Rng& r) {
    const std::string K = "vector";
    life::reg().ctx = K;
    std::size_t live0 = life::reg().live.size();
    typedef soa_vector<LV> V;
    {
        std::unique_ptr<V> a(new V()), b(new V()); std::vector<long> ma, mb;
        if (r.chance(1, 2)) { std::size_t n = r.below(70); if (r.chance(1, 2)) { a.reset(new V(n)); ma.assign(n, F); } else { a.reset(new V(n, LV(7))); ma.assign(n, 7); } }
        std::string log = VF_STR("v" << ma.size()); long tick = r.range(1, 1000);
        int steps = int(r.range(4, 24));
        for (int s = 0; s < steps; ++s) {
            unsigned op = unsigned(r.below(12));
            log += VF_STR(" " << op); vf::step(K + log);
            switch (op) {
            case 0: case 1: case 2: { int n = int(r.range(1, r.chance(1, 20) ? 700 : 40)); for (int i = 0; i < n; ++i) { ++tick; if (r.chance(1, 2)) a->push_back(LV(tick)); else a->emplace_back(tick, int(tick)); ma.push_back(tick); } vf::event("vector_push"); break; }
            case 3: { int n = int(r.range(1, 5)); while (n-- && !ma.empty()) { a->pop_back(); ma.pop_back(); } vf::event("vector_pop"); break; }
            case 4: { std::size_t n = r.below(140); std::size_t old = ma.size(); a->resize(n); ma.resize(n, F + 1); (void)old; vf::event("vector_resize"); break; }
            case 5: a->reserve(r.below(200)); vf::event("vector_reserve"); break;
            case 6: a->clear(); ma.clear(); break;
            case 7: b.reset(new V(*a)); mb = ma; vf::event("vector_copy"); break;
            case 8: *b = *a; mb = ma; vf::event("vector_assign"); break;
            case 9: *a = *b; ma = mb; break;
            case 10: if (!ma.empty()) { std::size_t i = r.below(ma.size()); a->set(i, LV(++tick)); ma[i] = tick; } break;
            case 11: { V t(*a); t.push_back(LV(5)); break; }
            }
            vec_ok(*a, ma, K); vec_ok(*b, mb, K);
            vf::event("vector_step");
        }
        vf::distinct(vf::hash_str(K + log));
        if (vf::st().case_index < 1) vf::sample(K + log);
    }
    vf::check(life::reg().live.size() == live0, K + ":leaked-objects", "member objects alive after the vector died");
    life::reg().live.clear();
}
VF_MAIN({
    vf::scenario("grid-LG", vf::scaled(500), [](vf::Rng& r) { grid_history<LG>(r, "LG", 13, 6, 5); });
    vf::scenario("grid-LU", vf::scaled(400), [](vf::Rng& r) { grid_history<LU>(r, "LU", 9, 7, 7); });
    vf::scenario("grid-sweep", 210, grid_sweep);
    vf::scenario("array-5-9", vf::scaled(400), [](vf::Rng& r) { array_history<5, 9>(r); });
    vf::scenario("array-8-3", vf::scaled(400), [](vf::Rng& r) { array_history<8, 3>(r); });
    vf::scenario("array-1-1", vf::scaled(100), [](vf::Rng& r) { array_history<1, 1>(r); });
    vf::scenario("array-150-270", vf::scaled(12), [](vf::Rng& r) { array_history<150, 270>(r); });
    vf::scenario("vector", vf::scaled(400), [](vf::Rng& r) { vector_history(r); });
    vf::event("objects_constructed", life::reg().constructed); vf::event("objects_destroyed", life::reg().destroyed); vf::event("objects_assigned", life::reg().assigned); vf::event("objects_read", life::reg().read);
})
