// C23: whole kernels (accessors + vectors + loop peeler) against plain loops over
// an array of structs; the complete storage outside of the region is watched.
#include "cells.hpp"
#include <libflatarray/soa_vector.hpp>
#include <functional>
using namespace LibFlatArray;
#ifndef PART
#define PART 9
#endif

#define L_Cell(S, A) S(double, t) S(float, f) A(double, w, 5) S(int, n) A(float, g, 3) S(char, flag)
struct Cell {
    struct API : public api_traits::has_custom_sizes, public api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((32)(96), (4)(9), (3)(5)) };
    L_Cell(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Cell, L_Cell)
LIBFLATARRAY_REGISTER_SOA(Cell, ((double)(t))((float)(f))((double)(w)(5))((int)(n))((float)(g)(3))((char)(flag)))
#define L_Atom(S, A) S(double, x) S(double, y) S(double, a) S(float, fx) S(float, fa) S(int, id)
struct Atom {
    struct API : public api_traits::has_custom_sizes, public api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((32)(64)(256), (1), (1)) };
    L_Atom(VF_DECL_S, VF_DECL_A)
};
VF_DESC(Atom, L_Atom)
LIBFLATARRAY_REGISTER_SOA(Atom, ((double)(x))((double)(y))((double)(a))((float)(fx))((float)(fa))((int)(id)))

struct Box { long x0, x1, y0, y1, z0, z1; };
template<class T> T small(vf::Rng& r) { return T(long(r.below(2001)) - 1000) / T(8); }
template<class T> struct M; // the members a kernel works on, by element type
template<> struct M<double> { template<class A> static double* src(A&& a) { return &a.t(); } template<class A> static double* arr(A&& a, int k) { return &a.w()[k]; } static double& src(Cell& c) { return c.t; } static double& arr(Cell& c, int k) { return c.w[k]; } static const int K = 5; static const char* n() { return "double"; } };
template<> struct M<float> { template<class A> static float* src(A&& a) { return &a.f(); } template<class A> static float* arr(A&& a, int k) { return &a.g()[k]; } static float& src(Cell& c) { return c.f; } static float& arr(Cell& c, int k) { return c.g[k]; } static const int K = 3; static const char* n() { return "float"; } };

// ---- stencil, dual callback, macro form of the loop peeler, ordinary or streaming -----------
template<class T, class SV> struct stencil {
    Box b;
    template<class V, class A1, class A2> void update(long& x, long end, long y, long z, A1& o, A2& n) const {
        o.index() = A1::gen_index(x, y, z); n.index() = A2::gen_index(x, y, z); V f = T(0.125);
        for (; x < end; x += V::ARITY) {
            V v = M<T>::src(o[coord<0, 0, -1>()]); v += M<T>::src(o[coord<0, -1, 0>()]); v += M<T>::src(o[coord<-1, 0, 0>()]); v += M<T>::src(o[coord<1, 0, 0>()]); v += M<T>::src(o[coord<0, 1, 0>()]); v += M<T>::src(o[coord<0, 0, 1>()]);
            V c; c.load(M<T>::src(o)); v = (v - c * T(6)) * f + c; M<T>::src(n) << v; o += V::ARITY; n += V::ARITY;
        }
    }
    template<class A1, class A2> void operator()(A1& o, A2 n) const { for (long z = b.z0; z < b.z1; ++z) for (long y = b.y0; y < b.y1; ++y) { long x = b.x0; LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, long, x, b.x1, update, y, z, o, n); } }
    static T ref(std::vector<Cell>& m, long X, long Y, long i) { T v = M<T>::src(m[i - X * Y]); v += M<T>::src(m[i - X]); v += M<T>::src(m[i - 1]); v += M<T>::src(m[i + 1]); v += M<T>::src(m[i + X]); v += M<T>::src(m[i + X * Y]); T c = M<T>::src(m[i]); return (v - c * T(6)) * T(0.125) + c; }
};
// ---- relaxation of array members in place, function form, masked update, reduction ----------
template<class T, class SV> struct relax {
    Box b; T limit; T* sum; long* hits;
    template<class A> void operator()(A& a) const {
        SV total = T(0);
        for (long z = b.z0; z < b.z1; ++z) for (long y = b.y0; y < b.y1; ++y) {
            long x = b.x0; a.index() = A::gen_index(x, y, z); const long end = b.x1; T* s = sum; long* h = hits; T lim = limit;
            loop_peeler<SV>(&x, end, [&a, s, h, lim](auto vec, long* x, long end) {
                typedef decltype(vec) V;
                for (; *x < end; *x += V::ARITY) {
                    V rho = T(0); for (int k = 0; k < M<T>::K; ++k) rho += V(M<T>::arr(a, k));
                    V top = lim; typename V::mask_type m = top < rho; V lower = rho; lower.blend(m, top);
                    for (int k = 0; k < M<T>::K; ++k) { V d(M<T>::arr(a, k)); d = d + (lower - d) * T(0.5); d.store(M<T>::arr(a, k)); }
                    M<T>::src(a) << rho; *h += long(count_mask<T, V::ARITY>(m)); for (int i = 0; i < V::ARITY; ++i) *s += lower[i]; a += V::ARITY;
                }
            });
        }
        (void)total;
    }
};
// ---- integer member: gather along a permuted row, scatter to another ------------------------
template<int W> struct permute {
    long y, z, x0, n; const int* perm; int add;
    template<class A> void operator()(A& a) const {
        typedef short_vec<int, W> V; a.index() = A::gen_index(0, y, z); int* row = &a.n(); long i = 0; std::vector<int> tmp(n + W);
        for (; i + W <= n; i += W) { V v; v.gather(row, perm + i); v = v * V(3) + V(add); v.store(&tmp[i]); } for (; i < n; ++i) tmp[i] = row[perm[i]] * 3 + add;
        for (i = 0; i + W <= n; i += W) { V v(&tmp[i]); v.scatter(row, perm + i); } for (; i < n; ++i) row[perm[i]] = tmp[i];
    }
};
template<class T> bool close(T a, T b) { return a == b || std::fabs(double(a) - double(b)) <= 1e-13 * (std::fabs(double(a)) + std::fabs(double(b))); }
template<> bool close(float a, float b) { return a == b || std::fabs(a - b) <= 2e-6f * (std::fabs(a) + std::fabs(b)); }

template<class T> struct marker { Box b; std::vector<char>* may; char* base; int which; template<class A> void operator()(A& a) const { for (long z = b.z0; z < b.z1; ++z) for (long y = b.y0; y < b.y1; ++y) for (long x = b.x0; x < b.x1; ++x) { a.index() = A::gen_index(x, y, z); auto m = [&](const void* p, int n) { for (int i = 0; i < n; ++i) (*may)[(const char*)p - base + i] = 1; }; if (which != 2) m(M<T>::src(a), sizeof(T)); if (which == 1) for (int k = 0; k < M<T>::K; ++k) m(M<T>::arr(a, k), sizeof(T)); if (which == 2) m(&a.n(), 4); } } };
template<class T, class SV> void cells(vf::Rng& r, const std::string& kind, bool aligned) {
    const std::string K = kind + ":" + M<T>::n() + "x" + std::to_string(SV::ARITY); (void)aligned;
    long X = 3 + r.below(94), Y = 3 + r.below(7), Z = 3 + r.below(3); if (r.chance(1, 6)) X = r.chance(1, 2) ? 32 : 96;
    soa_grid<Cell> g(X, Y, Z), h(X, Y, Z); std::vector<Cell> m(X * Y * Z), q(X * Y * Z);
    for (long i = 0; i < X * Y * Z; ++i) { Cell c = Desc<Cell>::zero(), d = Desc<Cell>::random(r); c.t = small<double>(r); c.f = small<float>(r); for (double& w : c.w) w = small<double>(r); for (float& w : c.g) w = small<float>(r); c.n = int(r.below(100000)); c.flag = char(r.next()); m[i] = c; q[i] = d; g.set(i % X, i / X % Y, i / X / Y, c); h.set(i % X, i / X % Y, i / X / Y, d); }
    for (int s = 0; s < 4; ++s) {
        Box b; auto range = [&](long lo, long hi, long& a, long& e) { a = r.range(lo, hi); e = r.range(a, hi); if (r.chance(1, 3)) { a = lo; e = hi; } };
        std::vector<char> hs(h.data(), h.data() + h.byte_size()), gs(g.data(), g.data() + g.byte_size());
        auto verify = [&](soa_grid<Cell>& grid, std::vector<Cell>& want, const char* what) {
            for (long i = 0; i < X * Y * Z; ++i) { Cell c = grid.get(i % X, i / X % Y, i / X / Y); Cell& w = want[i]; const char* d = 0; if (!close(c.t, w.t)) d = "t"; if (!close(c.f, w.f)) d = "f"; for (int k = 0; k < 5; ++k) if (!close(c.w[k], w.w[k])) d = "w"; for (int k = 0; k < 3; ++k) if (!close(c.g[k], w.g[k])) d = "g"; if (c.n != w.n) d = "n"; if (c.flag != w.flag) d = "flag";
                vf::check_lazy(!d, K + ":" + what, [&] { return VF_STR("member " << d << " of cell (" << i % X << "," << i / X % Y << "," << i / X / Y << ") of " << X << "x" << Y << "x" << Z << ": " << vf::st().step); }); w = c; }
            vf::event("cells_compared", X * Y * Z); };
        // bytes which belong to no member the kernel may write in the region must not change
        auto fence = [&](soa_grid<Cell>& grid, const std::vector<char>& was, std::function<void(std::vector<char>&)> mark, const char* what) { std::vector<char> may(was.size(), 0); mark(may); for (std::size_t i = 0; i < was.size(); ++i) if (!may[i] && was[i] != grid.data()[i]) { vf::violation(K + ":" + what + ":outside", VF_STR("byte " << i << " of the storage (outside of the region) was written: " << vf::st().step)); break; } ++vf::st().evaluations; vf::event("bytes_fenced", was.size()); };
        int op = int(r.below(3)); if (kind == "streaming") op = 0;
        if (op == 0) {
            range(1, X - 1, b.x0, b.x1); range(1, Y - 1, b.y0, b.y1); range(1, Z - 1, b.z0, b.z1); vf::step(VF_STR(K << " stencil on " << X << "x" << Y << "x" << Z << " region x " << b.x0 << ".." << b.x1 << " y " << b.y0 << ".." << b.y1 << " z " << b.z0 << ".." << b.z1));
            stencil<T, SV> f{b}; g.callback(&h, f); for (long z = b.z0; z < b.z1; ++z) for (long y = b.y0; y < b.y1; ++y) for (long x = b.x0; x < b.x1; ++x) { long i = (z * Y + y) * X + x; M<T>::src(q[i]) = f.ref(m, X, Y, i); }
            verify(h, q, "stencil"); verify(g, m, "stencil-source"); fence(h, hs, [&](std::vector<char>& may) { marker<T> k{b, &may, h.data(), 0}; h.callback(k); }, "stencil"); vf::event(kind == "streaming" ? "stencil_streaming" : "stencil");
        } else if (op == 1) {
            range(0, X, b.x0, b.x1); range(0, Y, b.y0, b.y1); range(0, Z, b.z0, b.z1); T sum = 0, rsum = 0; long hits = 0, rhits = 0; T lim = small<T>(r); vf::step(VF_STR(K << " relax on " << X << "x" << Y << "x" << Z << " region x " << b.x0 << ".." << b.x1 << " y " << b.y0 << ".." << b.y1 << " z " << b.z0 << ".." << b.z1));
            relax<T, SV> f{b, lim, &sum, &hits}; g.callback(f);
            for (long z = b.z0; z < b.z1; ++z) for (long y = b.y0; y < b.y1; ++y) for (long x = b.x0; x < b.x1; ++x) { Cell& c = m[(z * Y + y) * X + x]; T rho = 0; for (int k = 0; k < M<T>::K; ++k) rho += M<T>::arr(c, k); T lower = rho; if (lim < rho) { lower = lim; ++rhits; } for (int k = 0; k < M<T>::K; ++k) { T d = M<T>::arr(c, k); M<T>::arr(c, k) = d + (lower - d) * T(0.5); } M<T>::src(c) = rho; rsum += lower; }
            verify(g, m, "relax"); vf::check(hits == rhits, K + ":reduction", VF_STR("counted " << hits << " lanes instead of " << rhits << ": " << vf::st().step)); vf::check(std::fabs(double(sum) - double(rsum)) <= 1e-4 * (1 + std::fabs(double(rsum))), K + ":reduction", VF_STR("sum " << sum << " instead of " << rsum << ": " << vf::st().step)); fence(g, gs, [&](std::vector<char>& may) { marker<T> k{b, &may, g.data(), 1}; g.callback(k); }, "relax"); vf::event("relax"); vf::event("masked_lanes", rhits);
        } else {
            b.y0 = r.below(Y); b.y1 = b.y0 + 1; b.z0 = r.below(Z); b.z1 = b.z0 + 1; b.x0 = r.below(X); b.x1 = r.range(b.x0, X); long n = b.x1 - b.x0; std::vector<int> perm(n + 1); for (long i = 0; i < n; ++i) perm[i] = int(b.x0 + i); for (long i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]); vf::step(VF_STR(K << " permute on " << X << "x" << Y << "x" << Z << " row " << b.y0 << "," << b.z0 << " x " << b.x0 << ".." << b.x1));
            permute<SV::ARITY> f{b.y0, b.z0, b.x0, n, perm.data(), int(r.below(50))}; for (long i = 0; i < X * Y * Z; ++i) { m[i].n %= 100000; g.set(i % X, i / X % Y, i / X / Y, m[i]); } gs.assign(g.data(), g.data() + g.byte_size()); g.callback(f); for (long x = b.x0; x < b.x1; ++x) { int& v = m[(b.z0 * Y + b.y0) * X + x].n; v = v * 3 + f.add; } verify(g, m, "permute"); fence(g, gs, [&](std::vector<char>& may) { marker<T> k{b, &may, g.data(), 2}; g.callback(k); }, "permute"); vf::event("permute");
        }
        vf::distinct(vf::hash_str(vf::st().step)); vf::event("kernels");
    }
}
// ---- particles: all pairs with cut-off, growable and fixed-capacity container -----------------
template<int W> struct interact {
    long n, first, last; // particles first..last are updated
    template<class A> void operator()(A& a) const {
        typedef short_vec<double, W> V; long i = first; A o(a.data(), 0); long cnt = n;
        auto body = [&a, &o, cnt](auto vec, long* x, long end) {
            typedef decltype(vec) V; for (; *x < end; *x += V::ARITY) { a.index() = *x; V px(&a.x()), py(&a.y()), acc = 0.0;
                for (long j = 0; j < cnt; ++j) { o.index() = j; V dx = px - V(o.x()), dy = py - V(o.y()), d2 = dx * dx + dy * dy; V cut = 50.0; typename V::mask_type far = cut < d2; V fo = V(1.0) / (d2 + V(1.0)) + sqrt(d2); V nul = 0.0; fo.blend(far, nul); acc += fo; }
                &a.a() << acc; } };
        loop_peeler<V>(&i, last, body); (void)body;
        typedef short_vec<float, W> F; i = first; loop_peeler<F>(&i, last, [&a](auto vec, long* x, long end) { typedef decltype(vec) V; for (; *x < end; *x += V::ARITY) { a.index() = *x; V v(&a.fx()); V s = V(2.0f) / sqrt(v) + v / V(3.0f); &a.fa() << s; } });
    }
};
template<int W> void particles(vf::Rng& r) {
    const std::string K = "particles:x" + std::to_string(W); long n = 1 + r.below(200); if (r.chance(1, 4)) n = 1 + r.below(2 * W + 2); std::vector<Atom> m(n); soa_vector<Atom> v; static soa_array<Atom, 203> arr; arr.clear();
    for (auto& p : m) { p.x = small<double>(r) / 16; p.y = small<double>(r) / 16; p.a = -1; p.fx = 0.5f + float(r.unit()) * 100; p.fa = -2; p.id = int(r.next()); v.push_back(p); arr.push_back(p); }
    long first = r.below(n), last = r.range(first, n); if (r.chance(1, 3)) { first = 0; last = n; } vf::step(VF_STR(K << " " << n << " particles, " << first << ".." << last)); interact<W> f{n, first, last}; v.callback(f);
    { soa_accessor<Atom, 203, 1, 1, 0> acc = arr[0]; f(acc); }
    for (long i = first; i < last; ++i) { double acc = 0; for (long j = 0; j < n; ++j) { double dx = m[i].x - m[j].x, dy = m[i].y - m[j].y, d2 = dx * dx + dy * dy; double fo = 1.0 / (d2 + 1.0) + std::sqrt(d2); if (50.0 < d2) fo = 0; acc += fo; } m[i].a = acc; m[i].fa = 2.0f / std::sqrt(m[i].fx) + m[i].fx / 3.0f; }
    vf::check(long(v.size()) == n && long(arr.size()) == n, K + ":size", "size changed");
    for (int c = 0; c < 2; ++c) for (long i = 0; i < n; ++i) { Atom p; if (c) arr[int(i)] >> p; else p = v.get(i); const char* d = 0; if (!same(p.x, m[i].x)) d = "x"; if (!same(p.y, m[i].y)) d = "y"; if (std::fabs(p.a - m[i].a) > 1e-12 * (1 + std::fabs(m[i].a))) d = "a"; if (!same(p.fx, m[i].fx)) d = "fx"; if (std::fabs(p.fa - m[i].fa) > 2e-3f * std::fabs(m[i].fa)) d = "fa"; if (p.id != m[i].id) d = "id"; vf::check_lazy(!d, K + (c ? ":array" : ":vector"), [&] { return VF_STR("member " << d << " of particle " << i << " (a " << p.a << " instead of " << m[i].a << ", fa " << p.fa << " instead of " << m[i].fa << "): " << vf::st().step); }); }
    vf::event("particles", n); vf::event("interactions", n * (last - first)); vf::event("kernels"); vf::distinct(vf::mix(vf::hash_str(K), vf::mix(n, vf::mix(first, last))));
}
template<class T, int W> void width() {
    vf::scenario(std::string("cells-") + M<T>::n() + "x" + std::to_string(W), vf::scaled(90), [](vf::Rng& r) { cells<T, short_vec<T, W> >(r, "vector", false); });
}
template<class T, int W> void stream() {
    vf::scenario(std::string("streaming-") + M<T>::n() + "x" + std::to_string(W), vf::scaled(70), [](vf::Rng& r) { cells<T, streaming_short_vec<T, W> >(r, "streaming", true); });
}
template<int W> void atoms() { vf::scenario("particles-x" + std::to_string(W), vf::scaled(90), [](vf::Rng& r) { particles<W>(r); }); }
VF_MAIN({
    vf::st().max_viol = 12;
#if PART == 0 || PART == 9
    width<double, 1>(); width<double, 2>(); width<double, 8>(); width<double, 32>(); stream<double, 4>(); stream<double, 16>();
#endif
#if PART == 1 || PART == 9
    width<float, 1>(); width<float, 4>(); width<float, 8>(); width<float, 32>(); stream<float, 4>(); stream<float, 16>();
#endif
#if PART == 2 || PART == 9
    atoms<1>(); atoms<2>(); atoms<4>(); atoms<8>(); atoms<16>(); atoms<32>(); width<double, 4>(); width<float, 16>(); stream<double, 8>(); stream<float, 8>();
#endif
})
