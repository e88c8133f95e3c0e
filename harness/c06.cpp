// C06: every access path reaches the same memory for the same member of the same cell.
#include <type_traits>
#include "vf.hpp"
#include <array>
#include <cmath>
#include <algorithm>
#include <map>
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;
#define CELL6(NAME, ...)                                                        \
    struct NAME { struct API : __VA_ARGS__; double d; char c[3]; float f; short s[2]; int n; };  \
    LIBFLATARRAY_REGISTER_SOA(NAME, ((double)(d))((char)(c)(3))((float)(f))((short)(s)(2))((int)(n)))
CELL6(A6, public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((8)(20), (5)(7), (3)(6)) })
CELL6(B6, public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((4)(9)) })
CELL6(C6, public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((6)(13)) })
CELL6(D6, public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((10)(33)) })

typedef std::array<const char*, 8> Slots;
static const std::size_t SZ[8] = {8, 1, 1, 1, 4, 2, 2, 4};
static const char* SN[8] = {"d", "c[0]", "c[1]", "c[2]", "f", "s[0]", "s[1]", "n"};
#define P(x) ((const char*)&(x))
template<class A> Slots named(A&& a) { return Slots{{P(a.d()), P(a.c()[0]), P(a.c()[1]), P(a.c()[2]), P(a.f()), P(a.s()[0]), P(a.s()[1]), P(a.n())}}; }
template<class A> Slots statics(A&& a) { return Slots{{P(a.d()), P(a.template c<0>()), P(a.template c<1>()), P(a.template c<2>()), P(a.f()), P(a.template s<0>()), P(a.template s<1>()), P(a.n())}}; }
template<class A> Slots indexed(A&& a) { return Slots{{P((a.template access_member<double, 0>())), P((a.template access_member<char, 1>())), 0, 0, P((a.template access_member<float, 2>())), P((a.template access_member<short, 3>())), 0, P((a.template access_member<int, 4>()))}}; }
template<class A> Slots offs(A&& a) { return Slots{{a.access_member(8, 0), a.access_member(1, 8), a.access_member(1, 9), a.access_member(1, 10), a.access_member(4, 11), a.access_member(2, 15), a.access_member(2, 17), a.access_member(4, 19)}}; }

template<class C> C mk(vf::Rng& r) { C c; c.d = double(long(r.next())) / 1048576.0; for (int i = 0; i < 3; ++i) c.c[i] = char(r.next()); c.f = float(int(r.next())); for (int i = 0; i < 2; ++i) c.s[i] = short(r.next()); c.n = int(r.next()); return c; }
template<class C> const char* diff(const C& a, const C& b) { if (std::memcmp(&a.d, &b.d, 8)) return "d"; if (std::memcmp(a.c, b.c, 3)) return "c"; if (std::memcmp(&a.f, &b.f, 4)) return "f"; if (std::memcmp(a.s, b.s, 4)) return "s"; if (a.n != b.n) return "n"; return 0; }
template<class C> std::array<std::string, 8> raw(const C& c) { return {{std::string(P(c.d), 8), std::string(1, c.c[0]), std::string(1, c.c[1]), std::string(1, c.c[2]), std::string(P(c.f), 4), std::string(P(c.s[0]), 2), std::string(P(c.s[1]), 2), std::string(P(c.n), 4)}}; }

template<long X, long Y, long Z> struct C3 { static const long x = X, y = Y, z = Z; };

template<class C> struct Ctx {
    vf::Rng* r; long X, Y, Z; std::vector<C>* model; const char* nm; char* base; std::size_t bytes;
    C& at(long x, long y, long z) const { return (*model)[(z * Y + y) * X + x]; }
    bool in(long x, long y, long z) const { return x >= 0 && y >= 0 && z >= 0 && x < X && y < Y && z < Z; }
};

template<class C> struct kern {
    Ctx<C> k;
    template<class T> void same(const Slots& got, const Slots& want, const char* path, const T& where) const {
        for (int i = 0; i < 8; ++i) {
            if (!got[i]) continue;
            vf::check_lazy(got[i] == want[i], std::string(k.nm) + ":address:" + path, [&] { return VF_STR(path << " reaches " << SN[i] << " at distance " << (got[i] - want[i]) << " from where it is stored; " << where << " in " << k.X << "x" << k.Y << "x" << k.Z); });
        }
        vf::event("addresses_compared", 8);
    }
    // a neighbour seen from an accessor that must not move
    template<class R> struct cannot_be { static const bool value = false; };
    template<class D, long X, long Y, long Z, long I> struct cannot_be<const_soa_accessor_light<D, X, Y, Z, I> > { static const bool value = !std::is_constructible<const_soa_accessor_light<D, X, Y, Z, I>, const char*, const long&>::value; };
    template<class CC, class A> void of_const(const A& ca, const Slots& want, const std::string& ws) const { of_const_impl<CC>(ca, want, ws, std::integral_constant<bool, cannot_be<decltype(ca[CC()])>::value>()); }
    template<class CC, class A> void of_const_impl(const A&, const Slots&, const std::string&, std::true_type) const { vf::violation(std::string(k.nm) + ":relative-of-const", "the neighbours of a constant accessor cannot be addressed: what its operator[] returns cannot be made of a constant position"); }
    template<class CC, class A> void of_const_impl(const A& ca, const Slots& want, const std::string& ws, std::false_type) const { same(named(ca[CC()]), want, "relative-of-const", ws); same(statics(ca[CC()]), want, "relative-of-const-static", ws); C v = ca[CC()]; (void)v; }
    template<class CO, class A> void neighbour(A& acc, long x, long y, long z) const {
        if (!k.in(x + CO::x, y + CO::y, z + CO::z)) return;
        typedef coord<CO::x, CO::y, CO::z> CC;
        acc.index() = A::gen_index(x + CO::x, y + CO::y, z + CO::z);
        Slots want = named(acc);
        acc.index() = A::gen_index(x, y, z);
        auto w = [&] { return VF_STR("cell (" << x << "," << y << "," << z << ")+(" << CO::x << "," << CO::y << "," << CO::z << ")"); };
        std::string ws = VF_STR("cell (" << x << "," << y << "," << z << ")+(" << CO::x << "," << CO::y << "," << CO::z << ")"); (void)w;
        vf::step(ws);
        of_const<CC>(acc, want, ws);
        same(named(acc[CC()]), want, "relative", ws);
        same(statics(acc[CC()]), want, "relative-static", ws);
        same(indexed(acc[CC()]), want, "relative-index", ws);
        same(offs(acc[CC()]), want, "relative-offset", ws);
#ifndef NO_CONST_REL
        const_soa_accessor<C, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> cc(acc.data(), acc.index());
        same(named(cc[CC()]), want, "const-relative", ws);
        same(statics(cc[CC()]), want, "const-relative-static", ws);
        // chained, on the read-only accessor
        same(named(cc[coord<CO::x, 0, 0>()][coord<0, CO::y, 0>()][coord<0, 0, CO::z>()]), want, "const-chained", ws);
        { C v = cc[CC()]; const char* m = diff(v, k.at(x + CO::x, y + CO::y, z + CO::z)); vf::check_lazy(!m, std::string(k.nm) + ":value:const-relative", [&] { return ws + " member " + m; }); }
#endif
        // chained on the light accessor
        same(named(acc[coord<CO::x, CO::y, 0>()][coord<0, 0, CO::z>()]), want, "chained", ws);
        same(named(acc[coord<1, -1, 2>()][coord<CO::x - 1, CO::y + 1, CO::z - 2>()]), want, "chained", ws);
        // whole-cell conversion and assignment through the neighbour
        { C v = acc[CC()]; const char* m = diff(v, k.at(x + CO::x, y + CO::y, z + CO::z)); vf::check_lazy(!m, std::string(k.nm) + ":value:relative", [&] { return ws + " member " + m; }); }
        if (k.r->chance(1, 4)) { C v = mk<C>(*k.r); if (k.r->chance(1, 2)) acc[CC()] = v; else acc[CC()] << v; k.at(x + CO::x, y + CO::y, z + CO::z) = v; vf::event("neighbour_writes"); }
        // moving the parent moves the neighbour
        if (k.in(x + 1, y, z) && k.in(x + 1 + CO::x, y + CO::y, z + CO::z)) {
            auto la = acc[CC()]; ++la;
            Slots moved = want; for (int i = 0; i < 8; ++i) moved[i] += SZ[i];
            same(named(la), moved, "light-increment", ws);
            same(named(acc), bump(acc, A::gen_index(x + 1, y, z)), "light-increment-parent", ws);
            acc.index() = A::gen_index(x, y, z);
        }
        vf::distinct(vf::hash_str(VF_STR(k.nm << k.X << "," << k.Y << "," << k.Z << ws)));
    }
    template<class A> Slots bump(A& acc, long idx) const { A t(acc.data(), idx); return named(t); }

    template<long DX, long DY, long DZ, long I> void operator()(soa_accessor<C, DX, DY, DZ, I>& acc) const {
        typedef soa_accessor<C, DX, DY, DZ, I> A;
        // ---- reference addresses: placement is disjoint, inside the storage, row-contiguous ----
        std::vector<unsigned char> taken(k.bytes, 0);
        std::vector<Slots> ref(k.X * k.Y * k.Z);
        for (long z = 0; z < k.Z; ++z) for (long y = 0; y < k.Y; ++y) for (long x = 0; x < k.X; ++x) {
            acc.index() = A::gen_index(x, y, z);
            vf::check(A::gen_index(std::size_t(x), std::size_t(y), std::size_t(z)) == acc.index(), std::string(k.nm) + ":gen_index", "signed and unsigned index differ");
            Slots s = named(acc);
            ref[(z * k.Y + y) * k.X + x] = s;
            std::array<std::string, 8> want = raw(k.at(x, y, z));
            for (int i = 0; i < 8; ++i) {
                long off = s[i] - k.base;
                bool inside = off >= 0 && off + long(SZ[i]) <= long(k.bytes);
                vf::check_lazy(inside, std::string(k.nm) + ":outside", [&] { return VF_STR(SN[i] << " of cell (" << x << "," << y << "," << z << ") at storage offset " << off << " of " << k.bytes); });
                if (!inside) continue;
                bool over = false; for (std::size_t b = 0; b < SZ[i]; ++b) { over |= taken[off + b]; taken[off + b] = 1; }
                vf::check_lazy(!over, std::string(k.nm) + ":overlap", [&] { return VF_STR(SN[i] << " of cell (" << x << "," << y << "," << z << ") overlaps another member or cell"); });
                // the value stored through the grid is found there
                vf::check_lazy(!std::memcmp(s[i], want[i].data(), SZ[i]), std::string(k.nm) + ":value:named", [&] { return VF_STR(SN[i] << " of cell (" << x << "," << y << "," << z << ") of " << k.X << "x" << k.Y << "x" << k.Z << " holds the wrong value"); });
                if (x > 0) vf::check_lazy(s[i] == ref[(z * k.Y + y) * k.X + x - 1][i] + SZ[i], std::string(k.nm) + ":contiguous", [&] { return VF_STR(SN[i] << " not contiguous at (" << x << "," << y << "," << z << ")"); });
            }
            vf::event("placements", 8);
        }
        // ---- all paths at random positions ----
        for (int t = 0; t < 14; ++t) {
            long x = k.r->below(k.X), y = k.r->below(k.Y), z = k.r->below(k.Z);
            if (t == 0) x = y = z = 0;
            if (t == 1) { x = k.X - 1; y = k.Y - 1; z = k.Z - 1; }
            if (t > 9) { x = k.X / 2; y = k.Y / 2; z = k.Z / 2; }
            const Slots& want = ref[(z * k.Y + y) * k.X + x];
            std::string ws = VF_STR("cell (" << x << "," << y << "," << z << ")");
            vf::step(ws);
            acc.index() = A::gen_index(x, y, z);
            const A& ca = acc;
            same(named(ca), want, "const-named", ws);
            same(statics(acc), want, "static", ws);
            same(statics(ca), want, "const-static", ws);
            same(indexed(acc), want, "by-index", ws);
            same(offs(acc), want, "by-offset", ws);
            const_soa_accessor<C, DX, DY, DZ, I> cacc(acc.data(), acc.index());
            same(named(cacc), want, "read-only", ws); same(statics(cacc), want, "read-only-static", ws);
            long li = acc.index();
            soa_accessor_light<C, DX, DY, DZ, I> lacc(acc.data(), li);
            same(named(lacc), want, "light", ws); same(statics(lacc), want, "light-static", ws); same(indexed(lacc), want, "light-index", ws); same(offs(lacc), want, "light-offset", ws);
            const_soa_accessor_light<C, DX, DY, DZ, I> clacc(acc.data(), li);
            same(named(clacc), want, "light-read-only", ws); same(statics(clacc), want, "light-read-only-static", ws);
            // movement from the origin
            A m(acc.data(), 0); m += acc.index(); same(named(m), want, "advanced", ws);
            vf::check(m == acc && !(m != acc), std::string(k.nm) + ":equality", "accessors of the same cell differ");
            // equality tells cells of different storages apart, whichever lies lower in memory
            { static char other[64]; char* lo = std::min<char*>(other, acc.data()); char* hi = std::max<char*>(other, acc.data()); typedef const_soa_accessor<C, DX, DY, DZ, I> CA; typedef soa_accessor_light<C, DX, DY, DZ, I> LA; typedef const_soa_accessor_light<C, DX, DY, DZ, I> CLA;
              long i0 = acc.index(); A p(lo, i0), q(hi, i0), p1(lo, i0 + 1), q1(hi, i0 + 1); CA cp(lo, i0), cq(hi, i0), cs(acc.data(), i0), cs1(acc.data(), i0 + 1); LA lp(lo, i0), lq(hi, i0), ls(acc.data(), li); CLA clp(lo, i0), clq(hi, i0), cls(acc.data(), li);
              vf::check(p != q && q != p && !(p == q) && !(q == p) && p != q1 && q1 != p && p1 != q && q != p1 && p != p1 && p1 != p, std::string(k.nm) + ":equality", "accessors of cells in different storages compare equal");
              vf::check(cp != cq && cq != cp && !(cp == cq) && !(cq == cp) && cs == cacc && !(cs != cacc) && cs != cs1 && cs1 != cs && !(cs == cs1) && !(cs1 == cs), std::string(k.nm) + ":equality-read-only", "read-only accessors compare wrongly");
              vf::check(lp != lq && lq != lp && !(lp == lq) && !(lq == lp) && ls == lacc && !(ls != lacc), std::string(k.nm) + ":equality-light", "lightweight accessors compare wrongly");
              vf::check(clp != clq && clq != clp && !(clp == clq) && !(clq == clp) && cls == clacc && !(cls != clacc), std::string(k.nm) + ":equality-light-ro", "read-only lightweight accessors compare wrongly"); vf::event("equality_checks", 4); }
            m += -acc.index(); vf::check(m.index() == 0, std::string(k.nm) + ":advance", "negative advance");
            if (x > 0) { A q(acc.data(), A::gen_index(x - 1, y, z)); vf::check(q != acc && !(q == acc), std::string(k.nm) + ":equality", "accessors of different cells compare equal"); ++q; same(named(q), want, "incremented", ws);
                const_soa_accessor<C, DX, DY, DZ, I> cq(acc.data(), A::gen_index(x - 1, y, z)); ++cq; same(named(cq), want, "read-only-incremented", ws); cq += -1; cq += 1; same(named(cq), want, "read-only-advanced", ws);
                long lj = A::gen_index(x - 1, y, z); soa_accessor_light<C, DX, DY, DZ, I> lq(acc.data(), lj); ++lq; same(named(lq), want, "light-incremented", ws); lq += -1; lq += 1; same(named(lq), want, "light-advanced", ws);
                long lk = A::gen_index(x - 1, y, z); const_soa_accessor_light<C, DX, DY, DZ, I> clq(acc.data(), lk); ++clq; same(named(clq), want, "light-ro-incremented", ws); clq += -1; clq += 1; same(named(clq), want, "light-ro-advanced", ws); }
            // values through every conversion
            auto val = [&](const C& v, const char* path) { const char* d = diff(v, k.at(x, y, z)); vf::check_lazy(!d, std::string(k.nm) + ":value:" + path, [&] { return VF_STR("member " << d << " via " << path << " at " << ws); }); };
            { C v = acc; val(v, "conversion"); C w; acc >> w; val(w, "extraction"); C u; u << acc; val(u, "insertion"); C a = cacc; val(a, "ro-conversion"); C b; cacc >> b; val(b, "ro-extraction"); C c2 = lacc; val(c2, "light-conversion"); C d; lacc >> d; val(d, "light-extraction"); C e = clacc; val(e, "light-ro-conversion"); C g; clacc >> g; val(g, "light-ro-extraction"); }
            { C v = mk<C>(*k.r); switch (k.r->below(4)) { case 0: acc = v; break; case 1: acc << v; break; case 2: lacc = v; break; default: lacc << v; } k.at(x, y, z) = v; C w = acc; val(w, "written"); vf::event("cell_writes"); }
            // single member write through a random path leaves all else
            { double v = double(int(k.r->next())); short q = short(k.r->next()); switch (k.r->below(4)) { case 0: acc.d() = v; acc.s()[1] = q; break; case 1: lacc.d() = v; lacc.s()[1] = q; break; case 2: acc.template access_member<double, 0>() = v; acc.template s<1>() = q; break; default: std::memcpy(acc.access_member(8, 0), &v, 8); std::memcpy(acc.access_member(2, 17), &q, 2); } k.at(x, y, z).d = v; k.at(x, y, z).s[1] = q; C w = cacc; val(w, "member-write"); }
            neighbour<C3<0, 0, 0> >(acc, x, y, z); neighbour<C3<1, 0, 0> >(acc, x, y, z); neighbour<C3<-1, 0, 0> >(acc, x, y, z);
            neighbour<C3<0, 1, 0> >(acc, x, y, z); neighbour<C3<0, -1, 0> >(acc, x, y, z); neighbour<C3<0, 0, 1> >(acc, x, y, z); neighbour<C3<0, 0, -1> >(acc, x, y, z);
            neighbour<C3<2, -1, 1> >(acc, x, y, z); neighbour<C3<-3, 2, -2> >(acc, x, y, z); neighbour<C3<-1, -1, -1> >(acc, x, y, z); neighbour<C3<1, 1, 1> >(acc, x, y, z); neighbour<C3<4, 0, -1> >(acc, x, y, z); neighbour<C3<-5, 3, 0> >(acc, x, y, z);
        }
        // accessors with a position baked into their type
        if (k.X > 1 && k.Y > 1) {
            const long B = (DZ > 1 ? DX * DY : 0) + (DY > 1 ? DX : 0) + 1; const long zz = DZ > 1 && k.Z > 1 ? 1 : 0;
            if ((zz == 1 || DZ == 1)) for (long x = 0; x + 1 < k.X; ++x) {
                long yy = DY > 1 ? 1 : 0; const Slots& want = ref[(zz * k.Y + yy) * k.X + x + 1]; std::string ws = VF_STR("cell (" << x + 1 << "," << yy << "," << zz << ") with a position in the type");
                soa_accessor<C, DX, DY, DZ, B> a(acc.data(), x); const soa_accessor<C, DX, DY, DZ, B>& ca2 = a; const_soa_accessor<C, DX, DY, DZ, B> c(acc.data(), x); long li = x; soa_accessor_light<C, DX, DY, DZ, B> l(acc.data(), li); const_soa_accessor_light<C, DX, DY, DZ, B> cl(acc.data(), li);
                same(named(a), want, "typed", ws); same(named(ca2), want, "typed-const", ws); same(statics(a), want, "typed-static", ws); same(indexed(a), want, "typed-index", ws); same(offs(a), want, "typed-offset", ws);
                same(named(c), want, "typed-ro", ws); same(statics(c), want, "typed-ro-static", ws); same(named(l), want, "typed-light", ws); same(offs(l), want, "typed-light-offset", ws); same(indexed(l), want, "typed-light-index", ws); same(named(cl), want, "typed-light-ro", ws);
                same(named(a[coord<-1, 0, 0>()]), ref[(zz * k.Y + yy) * k.X + x], "typed-relative", ws); same(named(c[coord<-1, 0, 0>()]), ref[(zz * k.Y + yy) * k.X + x], "typed-relative-ro", ws);
                vf::event("typed_positions");
            }
        }
        // everything still as modelled
        for (long z = 0; z < k.Z; ++z) for (long y = 0; y < k.Y; ++y) for (long x = 0; x < k.X; ++x) { A a(acc.data(), A::gen_index(x, y, z)); C v = a; const char* d = diff(v, k.at(x, y, z)); vf::check_lazy(!d, std::string(k.nm) + ":isolation", [&] { return VF_STR("member " << d << " of cell (" << x << "," << y << "," << z << ") changed by writes to other cells"); }); }
    }
};

template<class C> void run(const char* nm, long mx, long my, long mz, uint64_t n) {
    vf::scenario(nm, vf::scaled(n), [&](vf::Rng& r) {
        long X = r.range(1, mx), Y = r.range(1, my), Z = r.range(1, mz);
        if (r.chance(1, 3)) X = mx; if (r.chance(1, 3)) Y = my; if (r.chance(1, 3)) Z = mz;
        soa_grid<C> g(X, Y, Z);
        std::vector<C> model;
        for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) for (long x = 0; x < X; ++x) { C c = mk<C>(r); g.set(x, y, z, c); model.push_back(c); }
        kern<C> f{Ctx<C>{&r, X, Y, Z, &model, nm, g.data(), g.byte_size()}};
        g.callback(f);
        for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) for (long x = 0; x < X; ++x) vf::check(!diff(g.get(x, y, z), model[(z * Y + y) * X + x]), std::string(nm) + ":grid-sees-kernel-writes", "grid read differs from what the kernel wrote");
        if (vf::st().case_index < 3) vf::sample(VF_STR(nm << " " << X << "x" << Y << "x" << Z));
    });
}

template<int N> void arr(uint64_t n) {
    std::string nm = VF_STR("array-" << N);
    vf::scenario(nm, vf::scaled(n), [&](vf::Rng& r) {
        typedef soa_array<D6, N> A; typedef soa_accessor<D6, N, 1, 1, 0> Acc;
        A* a = new A(); const A& ca = *a;
        std::vector<D6> m;
        long fill = r.range(1, N);
        for (long i = 0; i < fill; ++i) { m.push_back(mk<D6>(r)); *a << m.back(); }
        for (long i = 0; i < fill; ++i) {
            Acc ref(a->data(), i);
            Slots w = named(ref);
            auto eq = [&](const Slots& g, const char* p) { for (int q = 0; q < 8; ++q) if (g[q]) vf::check_lazy(g[q] == w[q], nm + ":" + p, [&] { return VF_STR(p << " element " << i << " member " << SN[q]); }); };
            eq(named((*a)[int(i)]), "subscript"); eq(named(a->at(int(i))), "at-int"); eq(named(a->at(std::size_t(i))), "at-size"); eq(named(ca[int(i)]), "const-subscript"); eq(named(ca.at(int(i))), "const-at-int"); eq(named(ca.at(std::size_t(i))), "const-at-size"); eq(indexed((*a)[int(i)]), "by-index"); eq(offs((*a)[int(i)]), "by-offset"); eq(statics((*a)[int(i)]), "static");
            if (i == 0) eq(named(a->begin()), "begin"); if (i == fill - 1) eq(named(a->back()), "back");
            D6 v = ca[int(i)]; vf::check(!diff(v, m[i]), nm + ":value", "element value via const subscript");
        }
        long cnt = 0; for (typename A::iterator it = a->begin(); it != a->end(); ++it) { D6 v = it; vf::check(cnt < fill && !diff(v, m[cnt]), nm + ":iteration", "iteration yields wrong element"); if (++cnt > fill + 2) break; }
        vf::check(cnt == fill, nm + ":iteration-count", "iteration count");
        delete a;
        vf::event("array_elements", fill); vf::distinct(vf::mix(N, fill));
    });
}
// storage too large to touch everywhere: sparse cells far apart, 64-bit offsets
#include <sys/mman.h>
template<long DX, long DY, long DZ> void huge(uint64_t n) {
    std::string nm = VF_STR("huge-" << DX << "x" << DY << "x" << DZ);
    std::size_t bytes = std::size_t(DX) * DY * DZ * 23;
    char* base = (char*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { vf::event("huge_skipped"); return; }
    vf::scenario(nm, n, [&](vf::Rng& r) {
        typedef soa_accessor<D6, DX, DY, DZ, 0> A;
        std::map<std::array<long, 3>, D6> m;
        std::map<const char*, std::size_t> taken;
        A acc(base, 0);
        for (int t = 0; t < 24; ++t) {
            std::array<long, 3> q = {{t & 1 ? DX - 1 - long(r.below(3)) : long(r.below(DX)), long(t & 2 ? DY - 1 : r.below(DY)), long(t & 4 ? DZ - 1 : r.below(DZ))}};
            if (DX < 3) q[0] = 0;
            D6 c = mk<D6>(r);
            bool again = m.count(q);
            acc.index() = A::gen_index(q[0], q[1], q[2]);
            vf::step(VF_STR(nm << " cell " << q[0] << "," << q[1] << "," << q[2]));
            Slots s = named(acc), o = offs(acc), x = indexed(acc);
            for (int i = 0; i < 8; ++i) {
                long off = s[i] - base;
                vf::check_lazy(off >= 0 && off + long(SZ[i]) <= long(bytes), nm + ":outside", [&] { return VF_STR(SN[i] << " at offset " << off << " of " << bytes); });
                vf::check_lazy(o[i] == s[i] && (!x[i] || x[i] == s[i]), nm + ":paths", [&] { return VF_STR(SN[i] << " reached at different addresses"); });
                if (off < 0 || off + long(SZ[i]) > long(bytes)) return;
                if (!again) { auto it = taken.lower_bound(s[i] - 7); for (; it != taken.end() && it->first < s[i] + SZ[i]; ++it) vf::check(!(it->first + it->second > s[i]), nm + ":overlap", vf::st().step); taken[s[i]] = SZ[i]; }
            }
            acc = c; m[q] = c; vf::event("huge_cells");
            vf::distinct(vf::hash_str(vf::st().step));
        }
        for (auto& e : m) { A a(base, A::gen_index(e.first[0], e.first[1], e.first[2])); D6 v = a; vf::check(!diff(v, e.second), nm + ":value", "far apart cells interfere"); }
        madvise(base, bytes, MADV_DONTNEED);
    });
    munmap(base, bytes);
}
#ifndef PART
#define PART 0
#endif
VF_MAIN({
#if PART == 0
    run<A6>("per-dim", 20, 7, 6, 60);
#else
    run<B6>("uniform-3d", 9, 9, 9, 60); run<C6>("uniform-2d", 13, 13, 1, 60); run<D6>("uniform-1d", 33, 1, 1, 60);
    huge<1073741856, 1, 1>(10); huge<32800, 32800, 1>(10); huge<1032, 1032, 1032>(10); huge<1032, 520, 200>(10); huge<100000000, 3, 2>(5);
    arr<1>(20); arr<7>(40); arr<16>(40); arr<50>(20);
#endif
})
