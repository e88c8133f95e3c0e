// C20: concurrent readers, kernels on disjoint cells, threads with their own
// containers. Runs under ThreadSanitizer; every value read is compared as well.
#include "cells.hpp"
#include "strcell.hpp"
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/soa_vector.hpp>
#include <atomic>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>
#include <sched.h>
#include <unistd.h>
using namespace LibFlatArray;
#ifndef VF_RUNS
#define VF_RUNS 15
#endif

// what a thread saw; merged after the join. The tickets order the operations of
// all threads (relaxed: no happens-before edges which could hide a race).
static std::atomic<uint64_t> ticket(0);
struct Log {
    uint64_t checks = 0, ops = 0; std::map<std::string, uint64_t> ev; std::vector<std::pair<std::string, std::string> > bad; std::vector<uint64_t> order;
    void op(const char* n) { ++ops; ++ev[n]; order.push_back(ticket.fetch_add(1, std::memory_order_relaxed)); }
    bool check(bool ok, const char* key, const std::string& what) { ++checks; if (!ok && bad.size() < 3) bad.push_back(std::make_pair(std::string(key), what)); return ok; }
};
static void jitter(vf::Rng& r) { switch (r.below(12)) { case 0: sched_yield(); break; case 1: { volatile int x = 0; for (int i = int(r.below(2000)); i > 0; --i) x = x + i; break; } case 2: if (r.chance(1, 30)) usleep(50); break; default: break; } }

// start gate which, once open, is only polled with relaxed loads
struct Gate { std::atomic<int> waiting, open; Gate() : waiting(0), open(0) {} void wait() { waiting.fetch_add(1); while (!open.load()) sched_yield(); } };

template<class F> static void threads(int n, vf::Rng& r, const std::string& what, F f) {
    std::vector<Log> log(n); std::vector<std::thread> t; Gate g; std::vector<uint64_t> seeds; for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    ticket = 0;
    for (int i = 0; i < n; ++i) t.push_back(std::thread([&, i] { vf::Rng q(seeds[i]); g.wait(); f(i, q, log[i]); }));
    while (g.waiting.load() != n) sched_yield();
    g.open = 1;
    for (auto& x : t) x.join();
    std::vector<std::pair<uint64_t, int> > all; for (int i = 0; i < n; ++i) for (uint64_t o : log[i].order) all.push_back(std::make_pair(o, i));
    std::sort(all.begin(), all.end()); uint64_t h = vf::hash_str(what), sw = 0; for (size_t i = 0; i < all.size(); ++i) { h = vf::mix(h, all[i].second); if (i && all[i].second != all[i - 1].second) ++sw; }
    vf::distinct(h); vf::event("thread_switches_between_operations", sw); vf::event("threads", n); vf::event("runs_" + what);
    for (int i = 0; i < n; ++i) { vf::st().evaluations += log[i].checks; for (auto& e : log[i].ev) vf::event(e.first, e.second); for (auto& b : log[i].bad) vf::violation(what + ":" + b.first, VF_STR("thread " << i << " of " << n << ": " << b.second)); }
    if (vf::st().case_index == 0) vf::sample(VF_STR(what << ": " << n << " threads, " << all.size() << " operations, " << sw << " switches"));
}

// ---- one grid, many readers -------------------------------------------------------
template<class CELL> struct reader_kernel { const std::vector<CELL>* m; long X, Y, Z, from, to; Log* log; long form;
    template<class ACC> void operator()(ACC& a) const {
        const long DX = ACC::DIM_X, DY = ACC::DIM_Y, DZ = ACC::DIM_Z; const ACC& ca = a;
        typedef const_soa_accessor<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> CA; typedef soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> LA; typedef const_soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> CLA; (void)DX; (void)DY; (void)DZ;
        for (long i = from; i < to; ++i) {
            long x = i % X, y = i / X % Y, z = i / X / Y; long at = ACC::gen_index(x, y, z); a.index() = at; CA ro(a.data(), at); LA l(a.data(), at); CLA cl(a.data(), at);
            auto see = [&](const CELL& c, const char* how) { const char* d = Desc<CELL>::diff(c, (*m)[i]); log->check(!d, how, VF_STR("member " << (d ? d : "") << " of cell " << i)); };
            // every way of reading a whole cell, in an order which differs from thread to thread
            for (long k = 0; k < 5; ++k) switch ((form + i * 3 + k) % 10) {
                case 0: see(CELL(a), "kernel-read"); break;
                case 1: { CELL c; a >> c; see(c, "kernel-extract"); break; }
                case 2: see(CELL(ro), "kernel-read-ro"); break;
                case 3: { CELL c; ro >> c; see(c, "kernel-extract-ro"); break; }
                case 4: see(CELL(l), "kernel-read-light"); break;
                case 5: { CELL c; l >> c; see(c, "kernel-extract-light"); break; }
                case 6: see(CELL(cl), "kernel-read-light-ro"); break;
                case 7: { CELL c; cl >> c; see(c, "kernel-extract-light-ro"); break; }
                case 8: see(CELL(a[coord<0, 0, 0>()]), "kernel-read-relative"); see(CELL(ro[coord<0, 0, 0>()]), "kernel-read-relative-ro"); break;
                default: { CELL c; c << a; see(c, "kernel-insert"); log->check(ca == a && !(ca != a), "kernel-equality", "accessor differs from itself"); break; }
            }
        } } };
struct RunK { long origin[3]; long n; std::size_t length() const { return std::size_t(n); } };
template<class CELL> void readers(vf::Rng& r, long X, long Y, long Z) {
    soa_grid<CELL> grid(X, Y, Z); std::vector<CELL> m; for (long i = 0; i < X * Y * Z; ++i) { m.push_back(Desc<CELL>::random(r)); grid.set(i % X, i / X % Y, i / X / Y, m[i]); }
    const soa_grid<CELL>& g = grid; vf::step(VF_STR(Desc<CELL>::name() << " " << X << "x" << Y << "x" << Z));
    threads(int(r.range(2, 8)), r, std::string("readers_") + Desc<CELL>::name(), [&](int, vf::Rng& q, Log& log) {
        const std::size_t S = aggregated_member_size<CELL>::VALUE;
        for (int k = 0; k < 40; ++k) {
            jitter(q); long x = q.below(X), y = q.below(Y), z = q.below(Z), i = x + X * (y + Y * z); long n = 1 + q.below(X - x);
            switch (q.below(8)) {
            case 7: { log.op("save_list"); if (!std::is_trivially_copyable<CELL>::value) break;
                RunK runs[4]; std::size_t tot = 0; for (auto& k : runs) { k.origin[0] = q.below(X); k.origin[1] = q.below(Y); k.origin[2] = q.below(Z); k.n = 1 + q.below(X - k.origin[0]); tot += k.n; }
                std::vector<char> raw(S * tot); const RunK* b = runs; g.save(b, b + 4, raw.data(), tot); soa_grid<CELL> own(X, Y, Z); own.load(b, b + 4, raw.data(), tot);
                for (auto& k : runs) for (long j = 0; j < k.n; ++j) { CELL c = own.get(k.origin[0] + j, k.origin[1], k.origin[2]); const char* d = Desc<CELL>::diff(c, m[k.origin[0] + j + X * (k.origin[1] + Y * k.origin[2])]); log.check(!d, "save-list", "cell of a saved list of runs"); } break; }
            case 0: { log.op("get"); CELL c = g.get(x, y, z); const char* d = Desc<CELL>::diff(c, m[i]); log.check(!d, "get", VF_STR("cell " << i << " member " << (d ? d : ""))); break; }
            case 1: { log.op("get_run"); std::vector<CELL> c(n, Desc<CELL>::zero()); g.get(x, y, z, c.data(), n); for (long j = 0; j < n; ++j) { const char* d = Desc<CELL>::diff(c[j], m[i + j]); log.check(!d, "get-run", VF_STR("cell " << i + j << " member " << (d ? d : ""))); } break; }
            case 2: case 3: { // save, then load into a grid of the thread's own
                log.op("save"); if (!std::is_trivially_copyable<CELL>::value) break;
                std::vector<char> raw(S * n); g.save(x, y, z, raw.data(), n); soa_grid<CELL> own(X, Y, Z); own.load(x, y, z, raw.data(), n);
                for (long j = 0; j < n; ++j) { CELL c = own.get(x + j, y, z); const char* d = Desc<CELL>::diff(c, m[i + j]); log.check(!d, "save", VF_STR("cell " << i + j << " member " << (d ? d : ""))); } break; }
            case 4: { log.op("kernel_read"); long from = q.below(X * Y * Z), to = from + 1 + q.below(20); if (to > X * Y * Z) to = X * Y * Z; reader_kernel<CELL> kr = {&m, X, Y, Z, from, to, &log, long(q.below(10))}; g.callback(kr); break; }
            case 5: { log.op("dimensions"); log.check(long(g.dim_x()) == X && long(g.dim_y()) == Y && long(g.dim_z()) == Z && g.byte_size() == grid.byte_size() && g.data() != 0 && long(g.extent_x()) >= X, "dimensions", "dimensions or storage"); break; }
            default: { log.op("copy"); if (X * Y * Z > 600) break; soa_grid<CELL> c(g); CELL v = c.get(x, y, z); const char* d = Desc<CELL>::diff(v, m[i]); log.check(!d, "copy", VF_STR("cell " << i)); c.set(x, y, z, Desc<CELL>::zero()); soa_grid<CELL> e; e = g; v = e.get(x, y, z); d = Desc<CELL>::diff(v, m[i]); log.check(!d, "assign", VF_STR("cell " << i)); break; }
            }
        } });
}
// ---- fixed-capacity and growable array, many readers ---------------------------------
template<class CELL> void array_readers(vf::Rng& r) {
    std::unique_ptr<soa_array<CELL, 60> > arr(new soa_array<CELL, 60>); soa_vector<CELL> vec; std::vector<CELL> m; long n = 1 + r.below(60);
    for (long i = 0; i < n; ++i) { m.push_back(Desc<CELL>::random(r)); arr->push_back(m[i]); vec.push_back(m[i]); }
    const soa_array<CELL, 60>& a = *arr; const soa_vector<CELL>& v = vec;
    threads(int(r.range(2, 8)), r, std::string("array_readers_") + Desc<CELL>::name(), [&](int, vf::Rng& q, Log& log) {
        for (int k = 0; k < 40; ++k) {
            jitter(q); long i = q.below(n); const char* d = 0;
            switch (q.below(7)) {
            case 6: { log.op("array_convert"); CELL c = CELL(a[int(i)]); d = Desc<CELL>::diff(c, m[i]); log.check(!d, "array-convert", VF_STR("element " << i)); c = CELL(a.at(int(i))); d = Desc<CELL>::diff(c, m[i]); log.check(!d, "array-at", VF_STR("element " << i)); c = CELL(a.at(std::size_t(i))); d = Desc<CELL>::diff(c, m[i]); log.check(!d, "array-at", VF_STR("element " << i)); break; }
            case 0: { log.op("array_at"); CELL c; a[int(i)] >> c; d = Desc<CELL>::diff(c, m[i]); log.check(!d, "array", VF_STR("element " << i)); break; }
            case 1: { log.op("array_copy"); soa_array<CELL, 60> b(a); CELL c; b[int(i)] >> c; d = Desc<CELL>::diff(c, m[i]); log.check(!d && b.size() == a.size(), "array-copy", VF_STR("element " << i)); b.clear(); soa_array<CELL, 64> w(a); log.check(long(w.size()) == n, "array-copy", "size"); break; }
            case 2: { log.op("array_size"); log.check(long(a.size()) == n && a.capacity() == 60 && a.byte_size() == n * aggregated_member_size<CELL>::VALUE, "array-size", "size"); break; }
            case 3: { log.op("vector_get"); CELL c = v.get(i); d = Desc<CELL>::diff(c, m[i]); log.check(!d && long(v.size()) == n && !v.empty() && long(v.capacity()) >= n, "vector", VF_STR("element " << i)); break; }
            case 4: { log.op("vector_kernel"); reader_kernel<CELL> kr = {&m, n, 1, 1, 0, n, &log, long(q.below(10))}; v.callback(kr); break; }
            default: { log.op("vector_copy"); soa_vector<CELL> w(v); CELL c = w.get(i); d = Desc<CELL>::diff(c, m[i]); log.check(!d, "vector-copy", VF_STR("element " << i)); w.pop_back(); break; }
            }
        } });
}
// ---- kernels updating disjoint cells of one grid ----------------------------------------
template<class CELL> struct update_kernel { const std::vector<CELL>* next; const std::vector<long>* mine; long X, Y; int form;
    template<class ACC> void operator()(ACC& a) const { for (long i : *mine) { long x = i % X, y = i / X % Y, z = i / X / Y; a.index() = ACC::gen_index(x, y, z); if (form == 0) a << (*next)[i]; else if (form == 1) a = (*next)[i]; else { soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> l(a.data(), a.index()); l << (*next)[i]; } } } };
template<class CELL> void writers(vf::Rng& r, long X, long Y, long Z) {
    soa_grid<CELL> grid(X, Y, Z); long n = X * Y * Z; std::vector<CELL> m; for (long i = 0; i < n; ++i) { m.push_back(Desc<CELL>::random(r)); grid.set(i % X, i / X % Y, i / X / Y, m[i]); }
    int T = int(r.range(2, 8)); std::vector<CELL> next; for (long i = 0; i < n; ++i) next.push_back(Desc<CELL>::random(r));
    // interleaved, blocked or random partition; some cells belong to nobody
    int part = int(r.below(3)); std::vector<int> owner(n); for (long i = 0; i < n; ++i) owner[i] = r.chance(1, 10) ? -1 : part == 0 ? int(i % T) : part == 1 ? int(i * T / n) : int(r.below(T));
    threads(T, r, std::string("writers_") + Desc<CELL>::name(), [&](int t, vf::Rng& q, Log& log) {
        std::vector<long> mine; for (long i = 0; i < n; ++i) if (owner[i] == t) mine.push_back(i);
        for (size_t at = 0; at < mine.size();) { jitter(q); size_t k = 1 + q.below(5); std::vector<long> some(mine.begin() + at, mine.begin() + std::min(mine.size(), at + k)); at += k; log.op("kernel_update"); update_kernel<CELL> u = {&next, &some, X, Y, int(q.below(3))}; grid.callback(u);
            // a thread sees its own updates
            reader_kernel<CELL> rk = {&next, X, Y, Z, some[0], some[0] + 1, &log, long(q.below(10))}; grid.callback(rk); }
    });
    for (long i = 0; i < n; ++i) { CELL c = grid.get(i % X, i / X % Y, i / X / Y); const CELL& want = owner[i] < 0 ? m[i] : next[i]; const char* d = Desc<CELL>::diff(c, want); vf::check_lazy(!d, std::string("writers:") + Desc<CELL>::name(), [&] { return VF_STR("member " << d << " of cell " << i << " (thread " << owner[i] << " of " << T << ") lost an update"); }); }
    vf::event("cells_updated", n);
}
// two grids, pairs of kernels: read one, update disjoint cells of the other
struct pair_kernel { long X, from, to; template<class A, class B> void operator()(A& a, B& b) const { for (long i = from; i < to; ++i) { a.index() = A::gen_index(i % X, i / X, 0L); b.index() = B::gen_index(i % X, i / X, 0L); b.v() = (unsigned short)(a.v() * 3 + 1); } } };
static void pairs(vf::Rng& r) {
    long X = 3 + r.below(10), Y = 3 + r.below(10); soa_grid<One> a(X, Y, 1), b(X, Y, 1); for (long i = 0; i < X * Y; ++i) { One o; o.v = (unsigned short)r.next(); a.set(i % X, i / X, 0, o); }
    int T = int(r.range(2, 8)); const soa_grid<One>& ca = a; (void)ca;
    threads(T, r, "pairs", [&](int t, vf::Rng& q, Log& log) { long n = X * Y, lo = n * t / T, hi = n * (t + 1) / T; for (long i = lo; i < hi;) { jitter(q); long e = std::min(hi, i + 1 + long(q.below(6))); pair_kernel k = {X, i, e}; log.op("pair_kernel"); a.callback(&b, k); i = e; } });
    for (long i = 0; i < X * Y; ++i) vf::check_lazy(b.get(i % X, i / X, 0).v == (unsigned short)(a.get(i % X, i / X, 0).v * 3 + 1), "pairs:value", [&] { return VF_STR("cell " << i); });
}
// vectorised updates of disjoint rows through the loop peeler
template<class U> static void row_step(long& x, long end, float* base) { for (; x < end; x += U::ARITY) { U v(base + x); v = v * U(2.0f) + U(1.0f); v.store(base + x); } }
struct row_kernel { long y, w, form; template<class ACC> void operator()(ACC& a) const {
    typedef short_vec<float, 8> V; a.index() = ACC::gen_index(0L, y, 0L); float* base = &a.y(); long x = 0;
    if (form) { LIBFLATARRAY_LOOP_PEELER(V, long, x, w, row_step, base); return; }
    loop_peeler<V>(&x, w, [base](auto my, long* i, long end) { typedef decltype(my) U; for (; *i < end; *i += U::ARITY) { U v(base + *i); v = v * U(2.0f) + U(1.0f); v.store(base + *i); } }); } };
static void rows(vf::Rng& r) {
    long X = 20 + r.below(40), Y = 16; soa_grid<Def> g(X, Y, 1); for (long i = 0; i < X * Y; ++i) { Def d = Desc<Def>::zero(); d.y = float(i); g.set(i % X, i / X, 0, d); }
    int T = 8; threads(T, r, "rows", [&](int t, vf::Rng& q, Log& log) { for (long y = t; y < Y; y += T) { jitter(q); log.op("row_kernel"); row_kernel k = {y, X, long(q.below(2))}; g.callback(k); } });
    for (long i = 0; i < X * Y; ++i) vf::check_lazy(g.get(i % X, i / X, 0).y == float(i) * 2 + 1, "rows:value", [&] { return VF_STR("cell " << i); });
}
// ---- each thread its own containers ---------------------------------------------------
template<class CELL> void own(int, vf::Rng& q, Log& log) {
    long X = 1 + q.below(8), Y = 1 + q.below(4), Z = 1 + q.below(2); soa_grid<CELL> g(X, Y, Z); std::vector<CELL> m(X * Y * Z, Desc<CELL>::zero());
    for (int k = 0; k < 25; ++k) { jitter(q); long x = q.below(X), y = q.below(Y), z = q.below(Z), i = x + X * (y + Y * z), n = 1 + q.below(X - x); CELL c = Desc<CELL>::random(q);
        switch (q.below(5)) {
        case 0: log.op("own_set"); g.set(x, y, z, c); m[i] = c; break;
        case 1: { log.op("own_set_run"); std::vector<CELL> v; for (long j = 0; j < n; ++j) v.push_back(Desc<CELL>::random(q)); g.set(x, y, z, v.data(), n); for (long j = 0; j < n; ++j) m[i + j] = v[j]; break; }
        case 2: { log.op("own_broadcast"); g.broadcast(x, y, z, c, n); for (long j = 0; j < n; ++j) m[i + j] = c; break; }
        case 3: { log.op("own_swap"); soa_grid<CELL> h(g); g.swap(h); break; }
        default: { log.op("own_save_load"); if (!std::is_trivially_copyable<CELL>::value) break; std::vector<char> raw(n * aggregated_member_size<CELL>::VALUE); g.save(x, y, z, raw.data(), n); g.load(x, y, z, raw.data(), n); break; }
        } }
    for (long i = 0; i < X * Y * Z; ++i) { CELL c = g.get(i % X, i / X % Y, i / X / Y); const char* d = Desc<CELL>::diff(c, m[i]); log.check(!d, "own-grid", VF_STR(Desc<CELL>::name() << " cell " << i)); }
}
template<class CELL> void own_seq(vf::Rng& q, Log& log) {
    soa_vector<CELL> v; soa_array<CELL, 40> a; std::vector<CELL> m; for (int k = 0; k < 36; ++k) { jitter(q); if (q.chance(1, 5) && !m.empty()) { log.op("own_pop"); v.pop_back(); a.pop_back(); m.pop_back(); } else { log.op("own_append"); CELL c = Desc<CELL>::random(q); v.push_back(c); a.push_back(c); m.push_back(c); } }
    for (size_t i = 0; i < m.size(); ++i) { CELL c = v.get(i); log.check(!Desc<CELL>::diff(c, m[i]), "own-vector", VF_STR("element " << i)); a[int(i)] >> c; log.check(!Desc<CELL>::diff(c, m[i]), "own-array", VF_STR("element " << i)); }
}
// vectors of one's own: every kind of operation which might be tempted to keep scratch space
template<class V, class T> void own_cmp(const V&, const V&, const T*, const T*, Log&, std::true_type) {}
template<class V, class T> void own_cmp(const V& x, const V& y, const T* a, const T* b, Log& log, std::false_type) {
    const std::size_t N = V::ARITY; T o[N]; V m = x; m.blend(x < y, y); m.store(o); for (std::size_t i = 0; i < N; ++i) log.check(o[i] == (a[i] < b[i] ? b[i] : a[i]), "vec-blend", "lane"); log.check(x[int(N) - 1] == a[N - 1], "vec-element", "last"); log.check(any(x > V(T(0))), "vec-any", "any"); }
template<class T, std::size_t N> void own_vec(vf::Rng& q, Log& log) {
    alignas(64) T a[N], b[N], o[N], t[4 * N]; int off[N]; for (std::size_t i = 0; i < N; ++i) { a[i] = T(q.range(1, 1000)); b[i] = T(q.range(1, 50)); off[i] = int(4 * i + q.below(4)); } for (auto& x : t) x = T(q.range(0, 9999));
    typedef short_vec<T, N> V; V x(a), y(b); log.op("own_vector_ops");
    auto eq = [&](const V& v, const char* w, const std::function<T(int)>& f) { v.store(o); for (std::size_t i = 0; i < N; ++i) log.check(o[i] == f(int(i)), w, VF_STR("lane " << i << " of " << N)); };
    eq(x + y, "vec-add", [&](int i) { return T(a[i] + b[i]); }); eq(x - y, "vec-sub", [&](int i) { return T(a[i] - b[i]); }); eq(x * y, "vec-mul", [&](int i) { return T(a[i] * b[i]); });
    V g; g.gather(t, off); eq(g, "vec-gather", [&](int i) { return t[off[i]]; }); x.scatter(t, off); for (std::size_t i = 0; i < N; ++i) log.check(t[off[i]] == a[i], "vec-scatter", "lane");
    V l; l.load(b); eq(l, "vec-load", [&](int i) { return b[i]; }); own_cmp(x, y, a, b, log, std::is_same<T, int>());
    std::ostringstream s, w; s << x; w << "["; for (std::size_t i = 0; i < N; ++i) w << (i ? ", " : "") << a[i]; w << "]"; log.check(s.str() == w.str(), "vec-print", s.str());
    // (some float divisions are approximate, see C12)
    (x / y).store(o); for (std::size_t i = 0; i < N; ++i) { double w = double(a[i]) / double(b[i]), g2 = double(o[i]); if (std::is_same<T, int>::value) w = double(long(w)); log.check(g2 - w <= 1e-3 * w && w - g2 <= 1e-3 * w, "vec-div", VF_STR("lane " << i)); } }
static void owners(vf::Rng& r) {
    threads(8, r, "owners", [&](int t, vf::Rng& q, Log& log) {
        for (int k = 0; k < 3; ++k) switch (q.below(8)) { case 6: own_vec<float, 4>(q, log); own_vec<int, 8>(q, log); own_vec<double, 16>(q, log); own_vec<float, 32>(q, log); break; case 7: own_vec<int, 4>(q, log); own_vec<double, 2>(q, log); own_vec<double, 8>(q, log); own_vec<int, 32>(q, log); own_vec<float, 1>(q, log); break; case 0: own<Mix>(t, q, log); break; case 1: own<Arr>(t, q, log); break; case 2: own<Str>(t, q, log); break; case 3: own_seq<Part>(q, log); break; case 4: own_seq<StrV>(q, log); break;
            default: { log.op("own_vectors"); float b[16], o[16]; for (int i = 0; i < 16; ++i) b[i] = float(q.range(1, 1000)); short_vec<float, 16> x(b), y = x * x + short_vec<float, 16>(1.0f); y.store(o); for (int i = 0; i < 16; ++i) log.check(o[i] == b[i] * b[i] + 1.0f, "own-vectors", "lane"); log.check(member_ptr_to_offset()(&Mix::c) == 8, "own-offset", "offset");
                std::vector<double, aligned_allocator<double, 128> > av; for (int i = 0; i < 50; ++i) av.push_back(i); log.check(std::size_t(av.data()) % 128 == 0 && av[49] == 49, "own-allocator", "allocation"); try { soa_grid<Mix> bad(41, 1, 1); log.check(false, "own-refused", "accepted"); } catch (std::out_of_range&) { log.check(true, "", ""); } } } });
}
VF_MAIN({
    vf::st().max_viol = 12;
#if PART == 0
    vf::scenario("readers-mix", vf::scaled(12 * VF_RUNS), [](vf::Rng& r) { readers<Mix>(r, r.range(1, 16), r.range(1, 6), r.range(1, 3)); });
    vf::scenario("readers-arr", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { readers<Arr>(r, r.range(1, 8), r.range(1, 8), r.range(1, 3)); });
    vf::scenario("readers-two", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { readers<Two>(r, r.range(1, 24), r.range(1, 16), 1); });
    vf::scenario("readers-str", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { readers<Str>(r, r.range(1, 4), r.range(1, 3), r.range(1, 2)); });
    vf::scenario("readers-long", vf::scaled(VF_RUNS), [](vf::Rng& r) { readers<Part>(r, r.range(200, 3000), 1, 1); });
    vf::scenario("array-readers-part", vf::scaled(10 * VF_RUNS), [](vf::Rng& r) { array_readers<Part>(r); });
    vf::scenario("array-readers-strv", vf::scaled(10 * VF_RUNS), [](vf::Rng& r) { array_readers<StrV>(r); });
#else
    vf::scenario("writers-mix", vf::scaled(12 * VF_RUNS), [](vf::Rng& r) { writers<Mix>(r, r.range(4, 16), r.range(2, 6), r.range(1, 3)); });
    vf::scenario("writers-arr", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { writers<Arr>(r, r.range(4, 8), r.range(2, 8), r.range(1, 3)); });
    vf::scenario("writers-str", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { writers<Str>(r, r.range(2, 4), r.range(1, 3), r.range(1, 2)); });
    vf::scenario("writers-one", vf::scaled(8 * VF_RUNS), [](vf::Rng& r) { writers<One>(r, r.range(4, 12), r.range(2, 8), r.range(1, 8)); });
    vf::scenario("pairs", vf::scaled(15 * VF_RUNS), [](vf::Rng& r) { pairs(r); });
    vf::scenario("rows", vf::scaled(6 * VF_RUNS), [](vf::Rng& r) { rows(r); });
    vf::scenario("owners", vf::scaled(12 * VF_RUNS), [](vf::Rng& r) { owners(r); });
#endif
})
