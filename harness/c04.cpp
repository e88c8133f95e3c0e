// C04: value semantics of grids over histories on a pool of grids.
#include "vf_alloc.hpp"
#include "strcell.hpp"
#include <memory>
#include <array>
using namespace LibFlatArray;
typedef std::vector<long> L;
static long up(const L& l, long v) { for (long s : l) if (v <= s) return s; return -1; }
template<class C> struct Lists;
template<> struct Lists<Mix> { static std::array<long, 3> ext(long x, long y, long z) { return {{up({8, 16, 40}, x), up({4, 6, 10}, y), up({2, 3, 7}, z)}}; } static L mx() { return {18, 8, 5}; } };
template<> struct Lists<Str> : Lists<Mix> {};
template<> struct Lists<Arr> { static std::array<long, 3> ext(long x, long y, long z) { return {{up({8, 24}, x), up({5, 8, 12}, y), up({3, 4, 9}, z)}}; } static L mx() { return {12, 9, 5}; } };
template<> struct Lists<Two> { static std::array<long, 3> ext(long x, long y, long) { long s = up({8, 16, 24, 40}, std::max(x, y)); return {{s, s, 1}}; } static L mx() { return {26, 26, 1}; } };
template<> struct Lists<One> { static std::array<long, 3> ext(long x, long y, long z) { long s = up({4, 8, 12, 20}, std::max(x, std::max(y, z))); return {{s, s, s}}; } static L mx() { return {13, 9, 9}; } };
template<> struct Lists<Def> { static std::array<long, 3> ext(long x, long y, long z) { if (y > 1 && z > 1) { long s = std::max(x, std::max(y, z)) <= 32 ? 32 : 64; return {{s, s, s}}; } if (y > 1) { long s = std::max(x, y) <= 32 ? 32 : 64; return {{s, s, 1}}; } return {{x <= 32 ? 32 : 64, 1, 1}}; } static L mx() { return {34, 6, 3}; } };

template<> struct Lists<Big> { static std::array<long, 3> ext(long x, long y, long z) { return {{up({20, 301, 70001}, x), up({2, 21, 300}, y), up({2, 19, 131}, z)}}; } static L mx() { return {301, 21, 3}; } };

struct count_fun { long* o; template<class A> void operator()(A& a) const { ++o[0]; o[1] = A::DIM_X; o[2] = A::DIM_Y; o[3] = A::DIM_Z; } };

template<class CELL> struct Model {
    long x = 0, y = 0, z = 0; std::vector<CELL> c;
    void reset(long a, long b, long d) { x = a; y = b; z = d; c.assign(a * b * d, Desc<CELL>::zero()); }
    CELL& at(long a, long b, long d) { return c[(d * y + b) * x + a]; }
};

template<class CELL> void verify(const soa_grid<CELL>& g, Model<CELL>& m, const std::string& log, int which) {
    const std::string K = Desc<CELL>::name();
    auto d = [&](const char* w) { return VF_STR(w << " of grid " << which << ": dims " << g.dim_x() << "x" << g.dim_y() << "x" << g.dim_z() << " extents " << g.extent_x() << "x" << g.extent_y() << "x" << g.extent_z() << " bytes " << g.byte_size() << ", model " << m.x << "x" << m.y << "x" << m.z << "; history " << log); };
    bool dims = long(g.dim_x()) == m.x && long(g.dim_y()) == m.y && long(g.dim_z()) == m.z;
    vf::check_lazy(dims, K + ":dims", [&] { return d("dimensions"); });
    std::array<long, 3> e = {{0, 0, 0}};
    if (m.x || m.y || m.z) e = Lists<CELL>::ext(m.x, m.y, m.z);
    vf::check_lazy(long(g.extent_x()) == e[0] && long(g.extent_y()) == e[1] && long(g.extent_z()) == e[2], K + ":extents", [&] { return d("extents"); });
    vf::check_lazy(g.byte_size() == std::size_t(e[0] * e[1] * e[2]) * Desc<CELL>::SIZE, K + ":bytes", [&] { return d("byte size"); });
    if (!dims || !g.byte_size()) return;
    long o[4] = {0}; count_fun f{o}; g.callback(f);
    vf::check_lazy(o[0] == 1 && o[1] == e[0] && o[2] == e[1] && o[3] == e[2], K + ":kernel-size", [&] { return d("kernel size"); });
    if (m.x == 0) return;
    std::vector<CELL> row(m.x);
    for (long z = 0; z < m.z; ++z) for (long y = 0; y < m.y; ++y) {
        g.get(0, y, z, row.data(), m.x);
        for (long x = 0; x < m.x; ++x) { const char* w = Desc<CELL>::diff(row[x], m.at(x, y, z)); vf::check_lazy(!w, K + ":contents", [&] { return VF_STR("member " << w << " of cell " << x << "," << y << "," << z << " " << d("contents")); }); }
    }
}

template<class CELL> void history(vf::Rng& r) {
    typedef soa_grid<CELL> G;
    const int P = 4;
    std::vector<std::unique_ptr<G> > g(P); std::vector<Model<CELL> > m(P);
    L mx = Lists<CELL>::mx();
    for (int i = 0; i < P; ++i) g[i].reset(new G());
    std::string log;
    const bool big = std::string(Desc<CELL>::name()) == "Big";
    auto fill = [&](int i) { std::vector<CELL> row(m[i].x); for (long z = 0; z < m[i].z; ++z) for (long y = 0; y < m[i].y; ++y) { for (long x = 0; x < m[i].x; ++x) m[i].at(x, y, z) = row[x] = Desc<CELL>::random(r); g[i]->set(0, y, z, row.data(), m[i].x); } log += VF_STR(" fill" << i); vf::event("fill"); };
    auto dims = [&](long& x, long& y, long& z) { if (big) { big_dims(r, x, y, z); return; } x = r.range(1, mx[0]); y = r.chance(1, 3) ? 1 : r.range(1, mx[1]); z = y == 1 && std::string(Desc<CELL>::name()) == "Def" ? 1 : (r.chance(1, 3) ? 1 : r.range(1, mx[2])); };
    for (int i = 0; i < P; ++i) if (r.chance(2, 3)) { long x, y, z; dims(x, y, z); log += VF_STR(" g" << i << "(" << x << "," << y << "," << z << ")"); g[i].reset(new G(x, y, z)); m[i].reset(x, y, z); for (int k = 0; k < 5; ++k) { CELL c = Desc<CELL>::random(r); long a = r.below(x), b = r.below(y), d = r.below(z); g[i]->set(a, b, d, c); m[i].at(a, b, d) = c; } if (r.chance(1, 3)) fill(i); }
    int steps = int(r.range(4, 24));
    for (int s = 0; s < steps; ++s) {
        int a = int(r.below(P)), b = int(r.below(P));
        unsigned op = unsigned(r.below(14));
        long x, y, z;
        vf::step(VF_STR(log << " next op" << op << " a=" << a << " b=" << b));
        switch (op) {
        case 0: { log += VF_STR(" g" << a << "=new copy(g" << b << ")"); std::unique_ptr<G> n(new G(*g[b])); Model<CELL> c = m[b]; g[a].swap(n); m[a] = c; vf::event("copy_ctor"); break; }
        case 1: log += VF_STR(" g" << a << "=g" << b); *g[a] = *g[b]; { Model<CELL> c = m[b]; m[a] = c; } vf::event(a == b ? "self_assign" : "assign"); break;
        case 2: log += VF_STR(" g" << a << ".swap(g" << b << ")"); g[a]->swap(*g[b]); if (a != b) std::swap(m[a], m[b]); vf::event("member_swap"); break;
        case 3: { log += VF_STR(" swap(g" << a << ",g" << b << ")"); using std::swap; swap(*g[a], *g[b]); if (a != b) std::swap(m[a], m[b]); vf::event("free_swap"); break; }
        case 4: case 5: dims(x, y, z); log += VF_STR(" g" << a << ".resize(" << x << "," << y << "," << z << ")"); g[a]->resize(x, y, z); if (x != m[a].x || y != m[a].y || z != m[a].z) m[a].reset(x, y, z); vf::event("resize"); break;
        case 6: log += VF_STR(" g" << a << ".resize(same)"); g[a]->resize(m[a].x, m[a].y, m[a].z); vf::event("resize_same"); break;
        case 7: if (r.chance(1, 2)) { log += VF_STR(" g" << a << ".resize(0)"); g[a]->resize(0, 0, 0); m[a].reset(0, 0, 0); vf::event("resize_empty"); } break;
        case 8: { log += VF_STR(" g" << a << "=G(g" << b << ")"); *g[a] = G(*g[b]); Model<CELL> c = m[b]; m[a] = c; vf::event("assign_temp"); break; }
        case 9: { // change exactly one dimension
            if (!m[a].x) break;
            x = m[a].x; y = m[a].y; z = m[a].z; int w = int(r.below(3)); long& q = w == 0 ? x : w == 1 ? y : z; q = r.range(1, mx[w]); if (big && x * y * z > 200000) break; if (std::string(Desc<CELL>::name()) == "Def" && y == 1) z = 1;
            log += VF_STR(" g" << a << ".resize(" << x << "," << y << "," << z << ")"); g[a]->resize(x, y, z); if (x != m[a].x || y != m[a].y || z != m[a].z) m[a].reset(x, y, z); vf::event("resize_one_dim"); break; }
        default: // write
            if (!m[a].x || !m[a].y || !m[a].z) break;
            if (r.chance(1, 3)) { fill(a); break; }
            for (int k = 0; k < 6; ++k) {
                x = r.below(m[a].x); y = r.below(m[a].y); z = r.below(m[a].z);
                CELL c = Desc<CELL>::random(r);
                if (r.chance(1, 3)) { long n = r.range(1, m[a].x - x); g[a]->broadcast(x, y, z, c, n); for (long i = 0; i < n; ++i) m[a].at(x + i, y, z) = c; }
                else { g[a]->set(x, y, z, c); m[a].at(x, y, z) = c; }
            }
            log += VF_STR(" w" << a); vf::event("write");
        }
        for (int i = 0; i < P; ++i) {
            verify(*g[i], m[i], log, i);
            for (int j = 0; j < i; ++j) vf::check_lazy(!g[i]->byte_size() || g[i]->data() != g[j]->data(), std::string(Desc<CELL>::name()) + ":shared-storage", [&] { return VF_STR("grids " << i << " and " << j << " share storage; " << log); });
        }
        vf::distinct(vf::hash_str(VF_STR(Desc<CELL>::name() << log)));
    }
    if (vf::st().case_index < 2) vf::sample(std::string(Desc<CELL>::name()) + ":" + log.substr(0, 300));
}
template<class CELL> void run(uint64_t n) {
    vf::scenario(Desc<CELL>::name(), vf::scaled(n), [&](vf::Rng& r) {
        history<CELL>(r);
    });
}
// every operation that transports the contents, at every length of every axis
void sweep(vf::Rng& r) {
    typedef soa_grid<Big> G;
    Model<Big> m, n, none; long x, y, z, a, b, c;
    sweep_dims(r, vf::st().case_index, x, y, z); sweep_dims(r, r.below(SWEEP), a, b, c);
    std::string log = VF_STR("sweep " << x << "," << y << "," << z << " and " << a << "," << b << "," << c);
    vf::step(log);
    G g(x, y, z), h(a, b, c), e, f;
    m.reset(x, y, z); n.reset(a, b, c);
    verify(g, m, log + " fresh", 0);
    auto fill = [&](G& g, Model<Big>& m) { std::vector<Big> row(m.x); for (long k = 0; k < m.z; ++k) for (long j = 0; j < m.y; ++j) { for (long i = 0; i < m.x; ++i) m.at(i, j, k) = row[i] = Desc<Big>::random(r); g.set(0, j, k, row.data(), m.x); } };
    fill(g, m); fill(h, n);
    G copy(g); verify(copy, m, log + " copy", 1); verify(g, m, log + " copied", 0);
    e = g; verify(e, m, log + " assigned to empty", 2);
    h = g; verify(h, m, log + " assigned to other", 3);
    G o(a, b, c); n.reset(a, b, c); fill(o, n); g = o; verify(g, n, log + " assigned from other", 0); verify(o, n, log + " assigned from", 4);
    e.swap(f); verify(f, m, log + " swapped", 5); verify(e, none, log + " swapped with empty", 2);
    swap(f, o); verify(f, n, log + " free swap", 5); verify(o, m, log + " free swap", 4);
    f.resize(x, y, z); if (x != a || y != b || z != c) n.reset(x, y, z); verify(f, n, log + " resized", 5);
    e.resize(x, y, z); n.reset(x, y, z); verify(e, n, log + " resized from empty", 2);
    e = e; o = *&o; verify(o, m, log + " self", 4); copy = h; verify(copy, m, log + " same size", 1);
    fill(h, n); verify(h, n, log + " written", 3); verify(copy, m, log + " source written", 1);
    vf::event("swept_lengths"); vf::distinct(vf::hash_str(log));
}
#ifndef PART
#define PART 0
#endif
VF_MAIN({
#if PART == 0
    run<Mix>(900); run<Arr>(600); run<Str>(400);
#elif PART == 2
    run<Big>(24);
    vf::scenario("sweep", vf::thorough() ? 3 * SWEEP : SWEEP, sweep);
#else
    run<Two>(500); run<One>(500); run<Def>(60);
#endif
})
