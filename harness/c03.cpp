// C03: packed raw blocks: layout oracle, inverse, isolation, exact buffers.
#include "vf_alloc.hpp"
#include "cells.hpp"
#include <list>
#include <algorithm>
using namespace LibFlatArray;

struct Streak {
    long origin[3]; long n;
    std::size_t length() const { return std::size_t(n); }
};

// put/get one cell of a block with `stride` cells
template<class CELL> void put(char* blk, std::size_t stride, std::size_t i, const CELL& c) {
    std::size_t off = 0; int lastm = -1, laste = -1;
    Desc<CELL>::raw(c, [&](int m, int e, const char* p, std::size_t s) { (void)lastm; (void)laste; (void)m; (void)e; std::memcpy(blk + off * stride + i * s, p, s); off += s; });
}

struct Buf { // exactly sized heap block, poisoned surroundings under ASan, canaries otherwise
    char* raw; char* p; std::size_t n;
    static const int G = 64;
    explicit Buf(std::size_t n) : n(n) { raw = new char[n + 2 * G]; std::memset(raw, 0x6B, n + 2 * G); p = raw + G; }
    bool intact() const { for (int i = 0; i < G; ++i) if (raw[i] != 0x6B || p[n + i] != 0x6B) return false; return true; }
    ~Buf() { delete[] raw; }
    Buf(const Buf&) = delete;
};

template<class CELL, class GRID>
void one(vf::Rng& r, long X, long Y, long Z, int rounds = 6) {
    const std::string K = std::string(Desc<CELL>::name());
    GRID g(X, Y, Z);
    const GRID& cg = g;
    std::vector<CELL> model(X * Y * Z);
    for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) { std::vector<CELL> row; for (long x = 0; x < X; ++x) { row.push_back(Desc<CELL>::random(r)); model[(z * Y + y) * X + x] = row.back(); } g.set(0, y, z, row.data(), X); }
    for (int s = 0; s < rounds; ++s) {
        // disjoint runs inside rows
        std::vector<Streak> runs;
        std::vector<char> used(X * Y * Z, 0);
        long want = r.range(1, 5), total = 0;
        if (r.chance(1, 5)) want = r.range(20, 400);
        bool single = r.chance(1, 3);
        if (single) want = 1;
        for (int t = 0; t < 4 * want + 16 && long(runs.size()) < want; ++t) {
            Streak k; k.origin[0] = r.below(X); k.origin[1] = r.below(Y); k.origin[2] = r.below(Z); k.n = r.range(0, X - k.origin[0]);
            if (r.chance(1, 4)) { k.origin[0] = 0; k.n = X; }
            bool clash = false;
            for (long i = 0; i < k.n; ++i) clash |= used[(k.origin[2] * Y + k.origin[1]) * X + k.origin[0] + i];
            if (clash) continue;
            for (long i = 0; i < k.n; ++i) used[(k.origin[2] * Y + k.origin[1]) * X + k.origin[0] + i] = 1;
            runs.push_back(k); total += k.n;
        }
        // block may be larger than the runs need: count is the block's cell count
        long count = total + ((!single && r.chance(1, 4)) ? r.range(1, 9) : 0);
        std::size_t bytes = std::size_t(count) * Desc<CELL>::SIZE;
        std::string d = VF_STR(K << " " << X << "x" << Y << "x" << Z << " runs=" << runs.size() << " cells=" << total << " block=" << count << (single ? " single" : " list"));
        for (auto& k : runs) d += VF_STR(" [" << k.origin[0] << "," << k.origin[1] << "," << k.origin[2] << "+" << k.n << "]");
        vf::step(d);
        auto at = [&](const Streak& k, long i) -> CELL& { return model[(k.origin[2] * Y + k.origin[1]) * X + k.origin[0] + i]; };
        std::vector<char> snap(g.data(), g.data() + g.byte_size());
        // ---- save ----
        std::vector<char> expect(bytes + 1, char(0x6B));
        { std::size_t i = 0; for (auto& k : runs) for (long j = 0; j < k.n; ++j) put(expect.data(), count, i++, at(k, j)); }
        {
            Buf b(bytes);
            char* exact = new char[bytes ? bytes : 1]; std::memset(exact, 0x6B, bytes ? bytes : 1);
            if (single) { cg.save(runs[0].origin[0], runs[0].origin[1], runs[0].origin[2], b.p, count); cg.save(runs[0].origin[0], runs[0].origin[1], runs[0].origin[2], exact, count); }
            else if (r.chance(1, 2)) { std::list<Streak> l(runs.begin(), runs.end()); cg.save(l.begin(), l.end(), b.p, count); cg.save(l.begin(), l.end(), exact, count); }
            else { const Streak* q = runs.data(); cg.save(q, q + runs.size(), b.p, count); cg.save(runs.begin(), runs.end(), exact, count); }
            auto bad = [&](const char* p) { std::size_t i = 0; while (i < bytes && p[i] == expect[i]) ++i; return i; };
            std::size_t w = bad(b.p), w2 = bad(exact);
            vf::check_lazy(w == bytes, K + ":save-layout", [&] { return VF_STR("byte " << w << " of the saved block is wrong: " << d); });
            vf::check_lazy(w2 == bytes, K + ":save-layout", [&] { return VF_STR("byte " << w2 << " of the saved block is wrong (exact buffer): " << d); });
            vf::check_lazy(b.intact(), K + ":save-bounds", [&] { return VF_STR("save wrote outside the block: " << d); });
            vf::check_lazy(!std::memcmp(snap.data(), g.data(), snap.size()), K + ":save-modifies", [&] { return VF_STR("save modified the grid: " << d); });
            delete[] exact;
            vf::event(single ? "save_single" : "save_list"); vf::event("bytes_compared", bytes);
        }
        // ---- save of overlapping and repeated runs ----
        if (r.chance(1, 4)) {
            std::vector<Streak> ov; std::size_t tot = 0; long k0 = r.range(2, 12);
            for (long t = 0; t < k0; ++t) { Streak k; k.origin[0] = r.below(X); k.origin[1] = r.below(std::min(Y, 2L)); k.origin[2] = r.below(std::min(Z, 2L)); k.n = r.range(0, X - k.origin[0]); if (t && r.chance(1, 4)) k = ov.back(); ov.push_back(k); tot += k.n; }
            std::vector<char> e2(tot * Desc<CELL>::SIZE + 1); std::size_t i = 0; for (auto& k : ov) for (long j = 0; j < k.n; ++j) put(e2.data(), tot, i++, at(k, j));
            Buf b(tot * Desc<CELL>::SIZE); cg.save(ov.begin(), ov.end(), b.p, tot);
            vf::check_lazy(b.intact() && !std::memcmp(b.p, e2.data(), b.n), K + ":save-overlapping", [&] { return VF_STR("saving overlapping runs gave a wrong block: " << d); });
            vf::check_lazy(!std::memcmp(snap.data(), g.data(), snap.size()), K + ":save-modifies", [&] { return VF_STR("save modified the grid: " << d); });
            vf::event("save_overlapping");
        }
        // ---- load ----
        {
            std::vector<std::pair<long, CELL> > fresh;
            char* src = new char[bytes ? bytes : 1]; std::memset(src, 0x3C, bytes ? bytes : 1);
            { std::size_t i = 0; for (auto& k : runs) for (long j = 0; j < k.n; ++j) { CELL c = Desc<CELL>::random(r); at(k, j) = c; put(src, count, i++, c); } }
            std::vector<char> srccopy(src, src + bytes); srccopy.push_back(0);
            if (single) g.load(runs[0].origin[0], runs[0].origin[1], runs[0].origin[2], src, count);
            else if (r.chance(1, 2)) { std::list<Streak> l(runs.begin(), runs.end()); g.load(l.begin(), l.end(), src, count); }
            else { const Streak* q = runs.data(); g.load(q, q + runs.size(), src, count); }
            vf::check_lazy(!std::memcmp(srccopy.data(), src, bytes), K + ":load-source", [&] { return VF_STR("load modified its source: " << d); });
            delete[] src;
            vf::event(single ? "load_single" : "load_list");
            for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) {
                std::vector<CELL> row(X); cg.get(0, y, z, row.data(), X);
                for (long x = 0; x < X; ++x) { long i = (z * Y + y) * X + x; const char* m = Desc<CELL>::diff(row[x], model[i]);
                    vf::check_lazy(!m, K + (used[i] ? ":load-value" : ":load-isolation"), [&] { return VF_STR("member " << m << " of cell (" << x << "," << y << "," << z << ") wrong after load: " << d); }); }
            }
        }
        vf::distinct(vf::hash_str(d));
        if (vf::st().case_index < 2 && s == 0) vf::sample(d);
    }
    // ---- inverse across grids of different shape: save everything row-wise, load as runs elsewhere ----
    {
        long n = X; Buf b(n * Desc<CELL>::SIZE);
        long y = r.below(Y), z = r.below(Z);
        cg.save(0, y, z, b.p, n);
        GRID h(X, 1, 1);
        h.load(0, 0, 0, b.p, n);
        for (long x = 0; x < X; ++x) vf::check(!Desc<CELL>::diff(h.get(x, 0, 0), model[(z * Y + y) * X + x]), K + ":inverse", "cell differs after save/load into another grid");
        vf::event("inverse");
    }
}

// accessor-level bulk transfer with explicit offset and stride
template<class CELL> struct acc_xfer {
    vf::Rng* r; long X, Y, Z; std::vector<CELL>* model;
    template<long DX, long DY, long DZ, long I> void operator()(soa_accessor<CELL, DX, DY, DZ, I>& acc) const {
        const std::string K = std::string("accessor:") + Desc<CELL>::name();
        for (int t = 0; t < 6; ++t) {
            long x = r->below(X), y = r->below(Y), z = r->below(Z), n = r->range(0, X - x), off = r->below(7), stride = off + n + r->below(5);
            std::size_t bytes = stride * Desc<CELL>::SIZE;
            acc.index() = soa_accessor<CELL, DX, DY, DZ, I>::gen_index(x, y, z);
            const_soa_accessor<CELL, DX, DY, DZ, I> cacc(acc.data(), acc.index());
            soa_accessor_light<CELL, DX, DY, DZ, I> lacc(acc.data(), acc.index());
            std::vector<char> expect(bytes + 1, char(0x6B));
            for (long i = 0; i < n; ++i) put(expect.data(), stride, off + i, (*model)[(z * Y + y) * X + x + i]);
            for (int kind = 0; kind < 3; ++kind) {
                Buf b(bytes);
                if (kind == 0) acc.save(b.p, n, off, stride); else if (kind == 1) cacc.save(b.p, n, off, stride); else lacc.save(b.p, n, off, stride);
                vf::check_lazy(b.intact() && !std::memcmp(b.p, expect.data(), bytes), K + ":save", [&] { return VF_STR("accessor save kind " << kind << " n=" << n << " offset=" << off << " stride=" << stride << " at " << x << "," << y << "," << z); });
            }
            char* src = new char[bytes ? bytes : 1];
            for (long i = 0; i < n; ++i) { CELL c = Desc<CELL>::random(*r); (*model)[(z * Y + y) * X + x + i] = c; put(src, stride, off + i, c); }
            if (r->chance(1, 2)) acc.load(src, n, off, stride); else lacc.load(src, n, off, stride);
            delete[] src;
            vf::event("accessor_xfer");
            vf::distinct(vf::mix(vf::hash_str(K), vf::mix(vf::mix(vf::mix(x, y), z), vf::mix(n, vf::mix(off, stride)))));
        }
        for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) for (long x = 0; x < X; ++x) {
            acc.index() = soa_accessor<CELL, DX, DY, DZ, I>::gen_index(x, y, z);
            CELL c = acc;
            vf::check(!Desc<CELL>::diff(c, (*model)[(z * Y + y) * X + x]), K + ":load", "cell wrong after accessor load");
        }
    }
};

template<class CELL> void run(const char* name, std::vector<long> xs, std::vector<long> ys, std::vector<long> zs, uint64_t n) {
    vf::scenario(std::string(name), vf::scaled(n), [&](vf::Rng& r) {
        long X = r.chance(1, 2) ? r.pick(xs) : r.range(1, xs.back()), Y = r.chance(1, 2) ? r.pick(ys) : r.range(1, ys.back()), Z = r.chance(1, 2) ? r.pick(zs) : r.range(1, zs.back());
        if (r.chance(1, 3)) one<CELL, soa_grid<CELL> >(r, X, Y, Z); else one<CELL, soa_grid<CELL, tight_allocator<char> > >(r, X, Y, Z);
    });
    vf::scenario(std::string(name) + "-accessor", vf::scaled(n / 3), [&](vf::Rng& r) {
        long X = r.range(1, xs.back()), Y = r.range(1, ys.back()), Z = r.range(1, zs.back());
        soa_grid<CELL, tight_allocator<char> > g(X, Y, Z);
        std::vector<CELL> model(X * Y * Z, Desc<CELL>::zero());
        acc_xfer<CELL> f{&r, X, Y, Z, &model};
        g.callback(f);
    });
}

#ifndef PART
#define PART 0
#endif
VF_MAIN({
#if PART == 0
    run<Mix>("mix", {1, 7, 8, 9, 16, 17, 40}, {1, 3, 4, 5, 6, 7, 10}, {1, 2, 3, 4, 7}, 250);
    run<Arr>("arr", {1, 7, 8, 9, 23, 24}, {1, 4, 5, 6, 8, 9, 12}, {1, 2, 3, 4, 5, 9}, 250);
    run<One>("one", {1, 3, 4, 5, 8, 9, 12, 13, 20}, {1, 4, 5, 8, 12, 20}, {1, 4, 5, 8, 9, 12, 20}, 150);
    run<Two>("two", {1, 7, 8, 9, 16, 17, 24, 25, 40}, {1, 8, 9, 16, 17, 24, 40}, {1}, 150);
    run<Part>("part", {1, 31, 32, 33, 65, 130}, {1}, {1}, 200);
#else
    vf::scenario("big", vf::scaled(40), [&](vf::Rng& r) {
        long x, y, z; big_dims(r, x, y, z);
        one<Big, soa_grid<Big, tight_allocator<char> > >(r, x, y, z);
        vf::event("big");
    });
    vf::scenario("sweep", vf::thorough() ? 3 * SWEEP : SWEEP, [&](vf::Rng& r) {
        long x, y, z; sweep_dims(r, vf::st().case_index, x, y, z);
        one<Big, soa_grid<Big, tight_allocator<char> > >(r, x, y, z, 2);
        soa_grid<Big, tight_allocator<char> > g(x, y, z);
        std::vector<Big> model(x * y * z, Desc<Big>::zero());
        acc_xfer<Big> f{&r, x, y, z, &model};
        g.callback(f);
        vf::event("swept_lengths");
    });
    vf::scenario("big-accessor", vf::scaled(20), [&](vf::Rng& r) {
        long x, y, z; big_dims(r, x, y, z);
        soa_grid<Big, tight_allocator<char> > g(x, y, z);
        std::vector<Big> model(x * y * z, Desc<Big>::zero());
        acc_xfer<Big> f{&r, x, y, z, &model};
        g.callback(f);
    });
#endif
})
