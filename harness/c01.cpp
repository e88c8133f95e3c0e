// C01: cell store as a model-checked map; whole-storage isolation monitor.
#include "vf_alloc.hpp"
#include "cells.hpp"
#include <memory>
using namespace LibFlatArray;

struct Dim { long x, y, z; };

// classify every byte of the storage: cell number (+1) or 0 for padding
template<class CELL>
struct byte_map_functor {
    std::vector<int>* owner; char* base; long dx, dy, dz; std::string* err;
    template<long DX, long DY, long DZ, long I>
    void operator()(soa_accessor<CELL, DX, DY, DZ, I>& acc) const {
        for (long z = 0; z < dz; ++z) for (long y = 0; y < dy; ++y) for (long x = 0; x < dx; ++x) {
            acc.index() = soa_accessor<CELL, DX, DY, DZ, I>::gen_index(x, y, z);
            int id = int((z * dy + y) * dx + x + 1);
            Desc<CELL>::visit(acc, [&](const char* n, int, int, const char* p, std::size_t s) {
                for (std::size_t b = 0; b < s; ++b) {
                    long off = p + b - base;
                    if (off < 0 || off >= long(owner->size())) { if (err->empty()) *err = VF_STR("member " << n << " of cell (" << x << "," << y << "," << z << ") lies outside the storage at offset " << off); return; }
                    if ((*owner)[off] && err->empty()) *err = VF_STR("member " << n << " of cell (" << x << "," << y << "," << z << ") overlaps cell #" << (*owner)[off] - 1);
                    (*owner)[off] = id;
                }
            });
        }
    }
};

// kernels which write or read a run of cells
template<class CELL> struct put_kernel { long x, y, z, n; const CELL* c; template<class A> void operator()(A& a) const { a.index() = A::gen_index(x, y, z); for (long i = 0; i < n; ++i) { a = c[i]; ++a; } } };
template<class CELL> struct take_kernel { long x, y, z, n; CELL* c; template<class A> void operator()(A& a) const { a.index() = A::gen_index(x, y, z); for (long i = 0; i < n; ++i) { c[i] = CELL(a); ++a; } } };

template<class CELL, class GRID>
void history(vf::Rng& r, Dim d, const std::string& gname, int steps) {
    const std::string K = std::string(Desc<CELL>::name()) + ":" + gname;
    GRID g(d.x, d.y, d.z);
    const GRID& cg = g;
    long N = d.x * d.y * d.z;
    std::vector<CELL> model(N, Desc<CELL>::zero());
    auto at = [&](long x, long y, long z) -> CELL& { return model[(z * d.y + y) * d.x + x]; };
    vf::check(long(g.dim_x()) == d.x && long(g.dim_y()) == d.y && long(g.dim_z()) == d.z, K + ":dims", "dimensions differ from request");
    std::vector<int> owner(g.byte_size(), 0);
    std::string err;
    byte_map_functor<CELL> bm{&owner, g.data(), d.x, d.y, d.z, &err};
    g.callback(bm);
    vf::check(err.empty(), K + ":storage", err);
    vf::check(g.data() + g.byte_size() >= g.data(), K + ":bs", "");
    std::string log = VF_STR(K << " " << d.x << "x" << d.y << "x" << d.z << ":");
    auto cmp = [&](const CELL& a, long x, long y, long z, const char* what) {
        const char* m = Desc<CELL>::diff(a, at(x, y, z));
        vf::check_lazy(!m, K + ":" + what, [&] { return VF_STR("member " << m << " of cell (" << x << "," << y << "," << z << ") of " << d.x << "x" << d.y << "x" << d.z << " grid has the wrong value; history " << log); });
    };
    // cells never written are value-initialised
    for (int i = 0; i < 6; ++i) { long x = r.below(d.x), y = r.below(d.y), z = r.below(d.z); cmp(cg.get(x, y, z), x, y, z, "initial"); }
    std::vector<char> before(g.byte_size());
    for (int s = 0; s < steps; ++s) {
        long x = r.below(d.x), y = r.below(d.y), z = r.below(d.z);
        if (r.chance(1, 4)) { x = r.chance(1, 2) ? 0 : d.x - 1; y = r.chance(1, 2) ? 0 : d.y - 1; z = r.chance(1, 2) ? 0 : d.z - 1; }
        long count = r.range(0, d.x - x);
        if (r.chance(1, 6)) count = d.x - x;
        if (r.chance(1, 6)) { x = 0; count = d.x; }
        unsigned op = unsigned(r.below(9));
        std::memcpy(before.data(), g.data(), before.size());
        std::set<int> touched;
        vf::step(VF_STR(log << " op" << op << "@" << x << "," << y << "," << z << "+" << count));
        switch (op) {
        case 0: { CELL c = Desc<CELL>::random(r); g.set(x, y, z, c); at(x, y, z) = c; touched.insert(int((z * d.y + y) * d.x + x + 1)); log += VF_STR(" set@" << x << "," << y << "," << z); vf::event("set"); break; }
        case 1: { std::vector<CELL> cs; for (long i = 0; i < count; ++i) cs.push_back(Desc<CELL>::random(r));
            // exactly sized heap copy: overreads of the source hit a redzone
            CELL* src = new CELL[count ? count : 1]; for (long i = 0; i < count; ++i) src[i] = cs[i];
            g.set(x, y, z, src, count);
            for (long i = 0; i < count; ++i) { vf::check(!Desc<CELL>::diff(src[i], cs[i]), K + ":source-modified", "set modified its source"); at(x + i, y, z) = cs[i]; touched.insert(int((z * d.y + y) * d.x + x + i + 1)); }
            delete[] src; log += VF_STR(" setn@" << x << "," << y << "," << z << "+" << count); vf::event("set_run"); break; }
        case 2: { CELL c = Desc<CELL>::random(r); g.broadcast(x, y, z, c, count); for (long i = 0; i < count; ++i) { at(x + i, y, z) = c; touched.insert(int((z * d.y + y) * d.x + x + i + 1)); } log += VF_STR(" bc@" << x << "," << y << "," << z << "+" << count); vf::event("broadcast"); break; }
        case 3: { CELL c = cg.get(x, y, z); cmp(c, x, y, z, "get"); vf::event("get"); break; }
        case 4: { CELL* dst = new CELL[count + 2]; CELL guard = Desc<CELL>::random(r); for (long i = 0; i < count + 2; ++i) dst[i] = guard;
            cg.get(x, y, z, dst + 1, count);
            for (long i = 0; i < count; ++i) cmp(dst[1 + i], x + i, y, z, "get-run");
            vf::check(!Desc<CELL>::diff(dst[0], guard) && !Desc<CELL>::diff(dst[count + 1], guard), K + ":get-run-bounds", "run read wrote outside the target");
            delete[] dst; vf::event("get_run"); break; }
        case 5: { // random full-cell sweep of a few positions
            for (int i = 0; i < 8; ++i) { long a = r.below(d.x), b = r.below(d.y), c = r.below(d.z); cmp(g.get(a, b, c), a, b, c, "get"); } vf::event("sweep"); break; }
        case 6: { std::vector<CELL> cs; for (long i = 0; i < count; ++i) { cs.push_back(Desc<CELL>::random(r)); at(x + i, y, z) = cs[i]; touched.insert(int((z * d.y + y) * d.x + x + i + 1)); }
            put_kernel<CELL> k{x, y, z, count, cs.data()}; g.callback(k); log += VF_STR(" kernel@" << x << "," << y << "," << z << "+" << count); vf::event("kernel_write"); break; }
        case 7: { std::vector<CELL> cs(count, Desc<CELL>::zero()); take_kernel<CELL> k{x, y, z, count, cs.data()}; if (r.chance(1, 2)) cg.callback(k); else g.callback(k);
            for (long i = 0; i < count; ++i) cmp(cs[i], x + i, y, z, "kernel-read"); vf::event("kernel_read"); break; }
        case 8: { // raw copy of a run to another place
            long n = std::min(count, d.x), x2 = r.below(d.x - n + 1), y2 = r.below(d.y), z2 = r.below(d.z);
            std::vector<char> raw(n * Desc<CELL>::SIZE + 1); cg.save(x, y, z, raw.data(), n); g.load(x2, y2, z2, raw.data(), n);
            std::vector<CELL> cs; for (long i = 0; i < n; ++i) cs.push_back(at(x + i, y, z));
            for (long i = 0; i < n; ++i) { at(x2 + i, y2, z2) = cs[i]; touched.insert(int((z2 * d.y + y2) * d.x + x2 + i + 1)); }
            log += VF_STR(" raw@" << x << "," << y << "," << z << "+" << n << "->" << x2 << "," << y2 << "," << z2); vf::event("raw_copy"); break; }
        }
        // read back right after a write, before anything else happens
        if (!touched.empty() && r.chance(1, 2)) { long t = *touched.rbegin() - 1; long a = t % d.x, b = t / d.x % d.y, e = t / d.x / d.y; cmp(cg.get(a, b, e), a, b, e, "read-back"); }
        vf::distinct(vf::mix(vf::mix(vf::hash_str(K), op), vf::mix(vf::mix(vf::mix(d.x, d.y), d.z), vf::mix(vf::mix(x, y), vf::mix(z, count)))));
        // isolation: no byte of any untouched cell may differ (padding is nobody's)
        bool ok = true; long bad = -1;
        const char* now = g.data();
        if (std::memcmp(now, before.data(), before.size()))
            for (std::size_t i = 0; i < before.size(); ++i)
                if (now[i] != before[i] && owner[i] && !touched.count(owner[i])) { ok = false; bad = long(i); break; }
        vf::check_lazy(ok, K + ":isolation", [&] { return VF_STR("byte " << bad << " of the storage (cell #" << owner[bad] - 1 << ") changed by an operation on other cells; history " << log); });
    }
    // final: every cell, in runs and one by one
    { std::vector<CELL> row(d.x, Desc<CELL>::zero());
      for (long z = 0; z < d.z; ++z) for (long y = 0; y < d.y; ++y) { cg.get(0, y, z, row.data(), d.x); for (long x = 0; x < d.x; ++x) cmp(row[x], x, y, z, "final-run"); }
      // one long write
      long y = r.below(d.y), z = r.below(d.z); bool bc = r.chance(1, 2); CELL c = Desc<CELL>::random(r);
      for (long x = 0; x < d.x; ++x) at(x, y, z) = row[x] = bc ? c : Desc<CELL>::random(r);
      if (bc) g.broadcast(0, y, z, c, d.x); else g.set(0, y, z, row.data(), d.x); vf::event("full_rows"); }
    for (long z = 0; z < d.z; ++z) for (long y = 0; y < d.y; ++y) for (long x = 0; x < d.x; ++x) cmp(cg.get(x, y, z), x, y, z, "final");
    vf::event("final_cells_compared", N);
    if (vf::st().case_index < 2) vf::sample(log.substr(0, 300));
}

template<class CELL> void run(const char* name, std::vector<long> xs, std::vector<long> ys, std::vector<long> zs, uint64_t n) {
    vf::scenario(std::string(name), vf::scaled(n), [&](vf::Rng& r) {
        Dim d{r.pick(xs), r.pick(ys), r.pick(zs)};
        if (r.chance(1, 2)) d.x = r.range(1, xs.back());
        if (r.chance(1, 2)) d.y = r.range(1, ys.back());
        if (r.chance(1, 2)) d.z = r.range(1, zs.back());
        if (r.chance(1, 3)) history<CELL, soa_grid<CELL> >(r, d, "default-alloc", 36);
        else history<CELL, soa_grid<CELL, tight_allocator<char> > >(r, d, "tight-alloc", 36);
    });
}

#ifndef PART
#define PART 0
#endif
#if PART == 1
// grids far larger than any storage that can be compared as a whole
template<class Far> void far(vf::Rng& r, Dim d) {
    const std::string K = VF_STR(Desc<Far>::name() << ":far");
    std::unique_ptr<soa_grid<Far> > gp;
    try { gp.reset(new soa_grid<Far>(d.x, d.y, d.z)); } catch (const std::bad_alloc&) { vf::event("far_no_memory"); return; }
    soa_grid<Far>& g = *gp; const soa_grid<Far>& cg = g;
    std::vector<Far> model(d.x * d.y * d.z, Desc<Far>::zero());
    for (int s = 0; s < 6; ++s) {
        for (int k = 0; k < 60; ++k) {
            long x = r.below(d.x), y = r.below(d.y), z = r.chance(1, 3) ? d.z - 1 - long(r.below(3) % d.z) : r.below(d.z), n = r.range(0, d.x - x);
            vf::step(VF_STR("far " << d.x << "x" << d.y << "x" << d.z << " @" << x << "," << y << "," << z << "+" << n));
            Far* m = &model[(z * d.y + y) * d.x + x];
            vf::distinct(vf::mix(vf::mix(x, y), vf::mix(z, n + 77)));
            switch (r.below(3)) {
            case 0: *m = Desc<Far>::random(r); g.set(x, y, z, *m); break;
            case 1: for (long i = 0; i < n; ++i) m[i] = Desc<Far>::random(r); g.set(x, y, z, m, n); break;
            default: Far c = Desc<Far>::random(r); g.broadcast(x, y, z, c, n); for (long i = 0; i < n; ++i) m[i] = c;
            }
            vf::event("far_writes");
        }
        std::vector<Far> row(d.x);
        for (long z = 0; z < d.z; ++z) for (long y = 0; y < d.y; ++y) {
            cg.get(0, y, z, row.data(), d.x);
            for (long x = 0; x < d.x; ++x) vf::check_lazy(!Desc<Far>::diff(row[x], model[(z * d.y + y) * d.x + x]), K, [&] { return VF_STR("cell (" << x << "," << y << "," << z << ") of " << d.x << "x" << d.y << "x" << d.z << " grid in a " << g.extent_x() << "x" << g.extent_y() << "x" << g.extent_z() << " storage has the wrong value"); });
            long x = r.below(d.x);
            vf::check(!Desc<Far>::diff(cg.get(x, y, z), model[(z * d.y + y) * d.x + x]), K + ":get", "single read of a far cell is wrong");
        }
    }
}
void run_far(uint64_t n) {
    vf::scenario("far", vf::scaled(n), [&](vf::Rng& r) {
        Dim d{r.range(1, 3), r.range(1, 3), r.range(900, 1000)};
        if (r.chance(1, 3)) { d.y = r.range(1000, 1100); d.z = r.range(1, 2); }
        far<Far>(r, d);
    });
    // default size lists: few cells, spread over large cubes and planes
    vf::scenario("far-default", vf::scaled(2 * n), [&](vf::Rng& r) {
        Dim d{r.range(1, 3), r.range(2, 3), 1};
        long e = r.pick(std::vector<long>{40, 64, 65, 96, 97, 128, 129, 160, 193, 250, 257, 264, 265, 300, 384, 400, 512, 513, 520});
        if (r.chance(1, 2)) { d.z = e; if (r.chance(1, 3)) { d.z = 2; d.y = e; } if (r.chance(1, 3)) { d.z = 2; d.y = 2; d.x = e; } }
        else if (r.chance(1, 2)) d.y = r.range(500, 4100); else { d.y = 2; d.x = r.range(500, 4100); }
        far<Def>(r, d);
    });
}
void run_big(uint64_t n) {
    vf::scenario("big", vf::scaled(n), [&](vf::Rng& r) {
        Dim d; big_dims(r, d.x, d.y, d.z);
        history<Big, soa_grid<Big, tight_allocator<char> > >(r, d, "tight-alloc", 8);
    });
    vf::scenario("sweep", vf::thorough() ? 3 * SWEEP : SWEEP, [&](vf::Rng& r) {
        Dim d; sweep_dims(r, vf::st().case_index, d.x, d.y, d.z);
        history<Big, soa_grid<Big, tight_allocator<char> > >(r, d, "tight-alloc", 5);
        vf::event("swept_lengths");
    });
}

#else
// default size lists: 1D/2D/3D selection by dimensionality
void run_default(uint64_t n) {
    vf::scenario("default-sizes", vf::scaled(n), [&](vf::Rng& r) {
        Dim d{1, 1, 1};
        switch (r.below(4)) {
        case 0: d.x = r.pick(std::vector<long>{1, 31, 32, 33, 64, 65, 129, 192, 193, 257, 513, 545, 1057, 2081, 5000}); break;
        case 1: d.x = r.range(1, 40); d.y = r.range(2, 40); if (r.chance(1, 4)) { d.x = r.range(60, 70); d.y = 3; } if (r.chance(1, 6)) { d.x = 2; d.y = r.range(125, 135); } break;
        case 2: d.x = r.range(1, 34); d.y = r.range(2, 6); d.z = r.range(2, 6); if (r.chance(1, 4)) { d.z = r.range(30, 34); d.x = 3; } if (r.chance(1, 4)) { d.y = r.range(30, 34); d.x = 3; d.z = 2; } break;
        case 3: d.x = r.range(1, 12); d.y = r.range(2, 12); d.z = r.range(2, 12); break;
        }
        history<Def, soa_grid<Def> >(r, d, "default-sizes", 8);
    });
}

#endif

VF_MAIN({
#if PART == 0
    run<Mix>("mix", {1, 7, 8, 9, 16, 17, 40}, {1, 3, 4, 5, 6, 7, 10}, {1, 2, 3, 4, 7}, 400);
    run<Arr>("arr", {1, 7, 8, 9, 23, 24}, {1, 4, 5, 6, 8, 9, 12}, {1, 2, 3, 4, 5, 9}, 400);
    run<One>("one", {1, 3, 4, 5, 8, 9, 12, 13, 20}, {1, 4, 5, 8, 12, 20}, {1, 4, 5, 8, 9, 12, 20}, 400);
    run<Two>("two", {1, 7, 8, 9, 16, 17, 24, 25, 40}, {1, 8, 9, 16, 17, 24, 40}, {1}, 400);
    run_default(150);
#else
    run_big(24);
    run_far(6);
#endif
})
