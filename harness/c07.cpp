// C07: kernels over pairs of grids.
#include "vf_alloc.hpp"
#include "cells.hpp"
#include <array>
using namespace LibFlatArray;
#define L_Asy(S, A) S(int, p) A(char, q, 2) S(double, w)
struct Asy {
    struct API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((4)(11), (3)(6), (2)(5)) };
    L_Asy(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Asy, L_Asy)
LIBFLATARRAY_REGISTER_SOA(Asy, ((int)(p))((char)(q)(2))((double)(w)))
#define L_No(S, A) S(int, p) S(short, q)
struct NoSpec { struct API : public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((4)(8)(11), (3)(6), (2)(5)) }; L_No(VF_DECL_S, VF_DECL_A) };
VF_DESC(NoSpec, L_No)
LIBFLATARRAY_REGISTER_SOA(NoSpec, ((int)(p))((short)(q)))

#define L_Wide(S, A) A(char, q, 2) S(short, w)
struct Wide {
    struct API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((40)(301), (3)(131), (2)(37)) };
    L_Wide(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Wide, L_Wide)
LIBFLATARRAY_REGISTER_SOA(Wide, ((char)(q)(2))((short)(w)))

template<class CELL> struct GM {
    soa_grid<CELL> g; long x, y, z; std::vector<CELL> m;
    GM(vf::Rng& r, long x, long y, long z) : g(x, y, z), x(x), y(y), z(z) { for (long k = 0; k < z; ++k) for (long j = 0; j < y; ++j) for (long i = 0; i < x; ++i) { m.push_back(Desc<CELL>::random(r)); g.set(i, j, k, m.back()); } }
    CELL& at(long i, long j, long k) { return m[(k * y + j) * x + i]; }
    void verify(const std::string& K, const std::string& d) { for (long k = 0; k < z; ++k) for (long j = 0; j < y; ++j) { std::vector<CELL> row(x); static_cast<const soa_grid<CELL>&>(g).get(0, j, k, row.data(), x); for (long i = 0; i < x; ++i) { const char* w = Desc<CELL>::diff(row[i], at(i, j, k)); vf::check_lazy(!w, K, [&] { return VF_STR("member " << w << " of cell " << i << "," << j << "," << k << " wrong: " << d); }); } } }
};

// kernel: checks both accessors, then moves data in both directions
struct Log { int calls = 0; long d1[3], d2[3]; const char *p1, *p2; long i1, i2; };
template<class CELL> struct kern {
    Log* l; GM<CELL>* a; GM<CELL>* b; const std::vector<std::array<long, 3> >* pos; const std::string* K; bool write_first;
    template<class A1, class A2> void operator()(A1& x, A2& y) const {
        ++l->calls;
        l->d1[0] = A1::DIM_X; l->d1[1] = A1::DIM_Y; l->d1[2] = A1::DIM_Z; l->d2[0] = A2::DIM_X; l->d2[1] = A2::DIM_Y; l->d2[2] = A2::DIM_Z;
        l->p1 = x.data(); l->p2 = y.data(); l->i1 = x.index(); l->i2 = y.index();
        // stay inside storage whatever we were handed
        if (x.data() != a->g.data() || y.data() != b->g.data()) return;
        if (A1::DIM_X * A1::DIM_Y * A1::DIM_Z * long(Desc<CELL>::SIZE) != long(a->g.byte_size()) || A2::DIM_X * A2::DIM_Y * A2::DIM_Z * long(Desc<CELL>::SIZE) != long(b->g.byte_size())) return;
        // reads see each grid's own cells
        for (long k = 0; k < a->z; ++k) for (long j = 0; j < a->y; ++j) for (long i = 0; i < a->x; ++i) { x.index() = A1::gen_index(i, j, k); CELL c = x; vf::check(!Desc<CELL>::diff(c, a->at(i, j, k)), *K + ":read-first", "kernel reads the wrong cell of the first grid"); }
        for (long k = 0; k < b->z; ++k) for (long j = 0; j < b->y; ++j) for (long i = 0; i < b->x; ++i) { y.index() = A2::gen_index(i, j, k); CELL c = y; vf::check(!Desc<CELL>::diff(c, b->at(i, j, k)), *K + ":read-second", "kernel reads the wrong cell of the second grid"); }
        for (auto& q : *pos) {
            if (q[0] >= a->x || q[1] >= a->y || q[2] >= a->z || q[0] >= b->x || q[1] >= b->y || q[2] >= b->z) continue;
            x.index() = A1::gen_index(q[0], q[1], q[2]); y.index() = A2::gen_index(b->x - 1 - q[0], b->y - 1 - q[1], b->z - 1 - q[2]);
            CELL c = x, d = y;
            y = c; b->at(b->x - 1 - q[0], b->y - 1 - q[1], b->z - 1 - q[2]) = c;
            if (write_first) { x = d; a->at(q[0], q[1], q[2]) = d; }
            vf::event("cells_moved");
        }
    }
};

template<class CELL, bool ASYM> void pair(vf::Rng& r, std::array<long, 3> p, std::array<long, 3> q) {
    std::string nm = Desc<CELL>::name(), K = nm;
    GM<CELL> a(r, p[0], p[1], p[2]), b(r, q[0], q[1], q[2]);
    std::vector<std::array<long, 3> > pos;
    for (int i = 0; i < 6; ++i) pos.push_back({{long(r.below(p[0])), long(r.below(p[1])), long(r.below(p[2]))}});
    bool cnst = r.chance(1, 2);
    std::string d = VF_STR(nm << " " << p[0] << "x" << p[1] << "x" << p[2] << " with " << q[0] << "x" << q[1] << "x" << q[2] << (cnst ? " const" : ""));
    vf::step(d);
    Log l;
    kern<CELL> f{&l, &a, &b, &pos, &K, !cnst};
    std::string what = "none";
    try { if (cnst) static_cast<const soa_grid<CELL>&>(a.g).callback(&b.g, f); else a.g.callback(&b.g, f); }
    catch (std::invalid_argument&) { what = "invalid_argument"; } catch (std::exception& e) { what = e.what(); }
    bool refuse = !ASYM && p != q;
    vf::check_lazy(what == (refuse ? "invalid_argument" : "none"), K + ":exception", [&] { return "exception " + what + ": " + d; });
    vf::check_lazy(l.calls == (refuse ? 0 : 1), K + ":calls", [&] { return VF_STR("kernel ran " << l.calls << " times: " << d); });
    if (l.calls == 1 && !refuse) {
        vf::check_lazy(l.p1 == a.g.data() && l.p2 == b.g.data() && l.i1 == 0 && l.i2 == 0, K + ":storage", [&] { return "kernel got the wrong storage: " + d; });
        vf::check_lazy(l.d1[0] == long(a.g.extent_x()) && l.d1[1] == long(a.g.extent_y()) && l.d1[2] == long(a.g.extent_z()), K + ":first-size", [&] { return VF_STR("first argument bound to " << l.d1[0] << "x" << l.d1[1] << "x" << l.d1[2] << ": " << d); });
        vf::check_lazy(l.d2[0] == long(b.g.extent_x()) && l.d2[1] == long(b.g.extent_y()) && l.d2[2] == long(b.g.extent_z()), K + ":second-size", [&] { return VF_STR("second argument bound to " << l.d2[0] << "x" << l.d2[1] << "x" << l.d2[2] << ": " << d); });
    }
    a.verify(K + (refuse ? ":changed-by-refusal" : ":first-contents"), d);
    b.verify(K + (refuse ? ":changed-by-refusal" : ":second-contents"), d);
    vf::event(refuse ? "refused" : (p == q ? "equal_pair" : "asymmetric_pair"));
    vf::distinct(vf::hash_str(d));
    if (vf::st().case_index < 2) vf::sample(d);
}
// a grid paired with itself
template<class CELL> struct self_kern { int* n; bool* ok; long X, Y, Z; CELL v; long x, y, z; template<class A, class B> void operator()(A& a, B& b) const { ++*n; *ok = a.data() == b.data() && A::DIM_X == B::DIM_X && A::DIM_Y == B::DIM_Y && A::DIM_Z == B::DIM_Z; a.index() = A::gen_index(x, y, z); b.index() = B::gen_index(x, y, z); a = v; CELL c = b; *ok = *ok && !Desc<CELL>::diff(c, v) && a.index() == b.index() && &a.index() != &b.index(); } };
template<class CELL> void self(vf::Rng& r, std::array<long, 3> p) {
    GM<CELL> a(r, p[0], p[1], p[2]); int n = 0; bool ok = false; long x = r.below(p[0]), y = r.below(p[1]), z = r.below(p[2]);
    self_kern<CELL> k{&n, &ok, p[0], p[1], p[2], Desc<CELL>::random(r), x, y, z};
    vf::step(VF_STR(Desc<CELL>::name() << " with itself " << p[0] << "x" << p[1] << "x" << p[2]));
    a.g.callback(&a.g, k); a.at(x, y, z) = k.v;
    vf::check(n == 1 && ok, std::string(Desc<CELL>::name()) + ":self-pair", "pairing a grid with itself does not give two independent accessors to its storage");
    a.verify(std::string(Desc<CELL>::name()) + ":self-pair-contents", vf::st().step);
    vf::event("self_pair");
}
template<class CELL, bool ASYM> void run(std::array<long, 3> mx, uint64_t n) {
    vf::scenario(VF_STR(Desc<CELL>::name() << mx[0]), vf::scaled(n), [&](vf::Rng& r) {
        std::array<long, 3> p, q;
        for (int i = 0; i < 3; ++i) p[i] = r.range(1, mx[i]);
        q = p;
        switch (r.below(5)) {
        case 0: break;
        case 1: case 2: { int i = int(r.below(3)); q[i] = r.range(1, mx[i]); break; }      // differ in one dimension
        case 3: { int i = int(r.below(3)); q[i] = std::min(mx[i], q[i] + 1); break; }       // usually the same storage size
        default: for (int i = 0; i < 3; ++i) q[i] = r.range(1, mx[i]);
        }
        if (r.chance(1, 12)) self<CELL>(r, p);
        pair<CELL, ASYM>(r, p, q);
    });
}
VF_MAIN({
    run<NoSpec, false>({{11, 6, 5}}, 800); run<Mix, false>({{18, 8, 5}}, 300); run<Asy, true>({{11, 6, 5}}, 800); run<Two, true>({{20, 20, 1}}, 200); run<One, true>({{9, 9, 9}}, 200);
    run<Part, false>({{70, 1, 1}}, 200); run<Part, false>({{600, 1, 1}}, 100);
    vf::scenario("Wide", vf::scaled(60), [&](vf::Rng& r) {
        auto d = [&] { std::array<long, 3> p; switch (r.below(3)) { case 0: p = {{r.range(200, 301), r.range(1, 5), r.range(1, 3)}}; break; case 1: p = {{r.range(1, 45), r.range(100, 131), 1}}; break; default: p = {{r.range(1, 45), r.range(1, 5), r.range(10, 37)}}; } return p; };
        std::array<long, 3> p = d(), q = d();
        pair<Wide, true>(r, p, r.chance(1, 3) ? p : q);
    });
    // every length of every axis, in either place, with an equal and a different partner
    vf::scenario("sweep", (vf::thorough() ? 3 : 1) * (301 + 131 + 37), [&](vf::Rng& r) {
        auto d = [&](long i) { std::array<long, 3> p = {{r.range(1, 3), r.range(1, 3), r.range(1, 2)}}; if (i < 301) p[0] = i + 1; else if (i < 432) p[1] = i - 300; else p[2] = i - 431; return p; };
        std::array<long, 3> p = d(long(vf::st().case_index % 469)), q = d(long(r.below(469)));
        pair<Wide, true>(r, p, p); pair<Wide, true>(r, p, q); pair<Wide, true>(r, q, p);
        if (r.chance(1, 4)) self<Wide>(r, p);
        vf::event("swept_lengths");
    });
})
