// C09: copying, assigning and swapping fixed-capacity arrays.
#include "vf_alloc.hpp"
#include "strcell.hpp"
#include "lifecells.hpp"
#include <memory>
using namespace LibFlatArray;

template<> struct Desc<LV> {
    static const char* name() { return "Obj"; }
    static LV random(vf::Rng& r) { return LV(long(r.below(100000)) + 1); }
    static const char* diff(const LV& a, const LV& b) { return a.is(b.a.get()) ? 0 : "object members"; }
};

template<class CELL, int N> struct Slot {
    typedef soa_array<CELL, N> A;
    unsigned char pre[32]; A a; unsigned char post[32];
    std::vector<CELL> m;
    Slot() { std::memset(pre, 0xC1, 32); std::memset(post, 0xC1, 32); }
    bool intact() const { for (int i = 0; i < 32; ++i) if (pre[i] != 0xC1 || post[i] != 0xC1) return false; return true; }
};
template<class CELL, int N> void verify(const soa_array<CELL, N>& a, const std::vector<CELL>& m, const std::string& K, const std::string& log) {
    auto d = [&](const char* w) { return VF_STR(w << ": size " << a.size() << " expected " << m.size() << " capacity " << N << "; " << log); };
    vf::check_lazy(a.byte_size() == m.size() * aggregated_member_size<CELL>::VALUE && a.capacity() == std::size_t(N), K + ":byte-size", [&] { return d("byte size / capacity"); });
    if (!vf::check_lazy(a.size() == m.size(), K + ":size", [&] { return d("size"); })) return;
    for (std::size_t i = 0; i < m.size(); ++i) {
        CELL c = a[int(i)]; const char* w = Desc<CELL>::diff(c, m[i]);
        vf::check_lazy(!w, K + ":element", [&] { return VF_STR("member " << w << " of element " << i << "; " << d("element")); });
    }
}
template<class CELL, int N> soa_array<CELL, N> by_value(const soa_array<CELL, N>& a) { soa_array<CELL, N> t(a); return t; }

template<class CELL, int N, int M> struct conv { // source capacity N -> target capacity M
    typedef soa_array<CELL, N> S; typedef soa_array<CELL, M> T;
    // how: 0 const lvalue, 1 lvalue, 2 temporary
    static T* build(S& s, int how) {
        const S& c = s;
        switch (how) { case 0: return new T(c); case 1: return new T(s); default: return new T(by_value(s)); }
    }
    static void store(S& s, T& t, int how) {
        const S& c = s; T* r;
        switch (how) { case 0: r = &(t = c); break; case 1: r = &(t = s); break; default: r = &(t = by_value(s)); break; }
        vf::check(r == &t, "assign-returns-self", "assignment does not return its target");
    }
    static void go(vf::Rng& r, Slot<CELL, N>& s, Slot<CELL, M>& t, const std::string& K, const std::string& log) {
        int how = int(r.below(3));
        bool fits = s.m.size() <= std::size_t(M);
        const std::string KK = K + VF_STR(":" << N << "to" << M << ":" << how);
        if (r.chance(1, 2)) {
            unsigned long blocks = vf::alloc_state().live_blocks; std::size_t objs = life::reg().live.size();
            std::string what = "none"; T* n = 0;
            try { n = build(s.a, how); } catch (std::out_of_range&) { what = "out_of_range"; } catch (std::exception& e) { what = "other"; }
            bool clean = vf::alloc_state().live_blocks == blocks, clean_objs = life::reg().live.size() == objs;
            if (fits) {
                vf::check(what == "none", KK + ":copy-refused", "copy construction failed: " + what);
                if (n) {
                    verify<CELL, M>(*n, s.m, KK + ":copy", log);
                    // independence, both ways
                    if (!s.m.empty()) {
                        std::vector<CELL> mm(s.m); std::size_t i = r.below(mm.size());
                        mm[i] = Desc<CELL>::random(r); (*n)[int(i)] = mm[i];
                        verify<CELL, N>(s.a, s.m, KK + ":source-after-copy-changed", log);
                        CELL c = Desc<CELL>::random(r); std::size_t j = r.below(s.m.size()); s.a[int(j)] = c; s.m[j] = c;
                        verify<CELL, M>(*n, mm, KK + ":copy-after-source-changed", log);
                        if (r.chance(1, 3)) { s.a.clear(); s.m.clear(); verify<CELL, M>(*n, mm, KK + ":copy-after-source-cleared", log); }
                        if (mm.size() < std::size_t(M)) { CELL e = Desc<CELL>::random(r); *n << e; mm.push_back(e); verify<CELL, M>(*n, mm, KK + ":copy-grown", log); }
                    }
                    delete n;
                }
                vf::event("copy_construct");
            } else {
                vf::check(what == "out_of_range", KK + ":copy-not-refused", "copying too many elements gave: " + what);
                if (!n) {
                    vf::check(clean, KK + ":refused-copy-leaks", "heap blocks left behind by a refused copy construction; " + log);
                    vf::check(clean_objs, KK + ":refused-copy-leaks-objects", "refused copy construction left live member objects");
                }
                vf::event("refused_copy");
            }
        } else {
            std::string what = "none";
            try { store(s.a, t.a, how); } catch (std::out_of_range&) { what = "out_of_range"; } catch (std::exception& e) { what = e.what(); }
            if (fits) { vf::check(what == "none", KK + ":assign-refused", "assignment failed: " + what); t.m = s.m; vf::event("assign"); }
            else { vf::check(what == "out_of_range", KK + ":assign-not-refused", "assigning too many elements gave: " + what); vf::event("refused_assign"); }
        }
    }
};
template<class CELL, int N> void same(vf::Rng& r, Slot<CELL, N>& a, Slot<CELL, N>& b, const std::string& K, const std::string& log) {
    switch (r.below(5)) {
    case 0: { using std::swap; swap(a.a, b.a); a.m.swap(b.m); vf::event("swap"); break; }
    case 1: LibFlatArray::swap(a.a, b.a); a.m.swap(b.m); vf::event("swap"); break;
    case 2: swap(a.a, a.a); vf::event("self_swap"); break;
    case 3: { soa_array<CELL, N>& x = a.a; x = a.a; vf::event("self_assign"); const soa_array<CELL, N>& c = a.a; x = c; break; }
    case 4: conv<CELL, N, N>::go(r, a, b, K, log); break;
    }
}
template<class CELL, int N> void mutate(vf::Rng& r, Slot<CELL, N>& s) {
    switch (r.below(7)) {
    case 0: case 1: case 2: for (std::size_t n = r.below(N + 1); n--;) if (s.m.size() < std::size_t(N)) { CELL c = Desc<CELL>::random(r); s.a << c; s.m.push_back(c); } break;
    case 3: while (s.m.size() < std::size_t(N)) { CELL c = Desc<CELL>::random(r); s.a.push_back(c); s.m.push_back(c); } break;
    case 4: s.a.clear(); s.m.clear(); break;
    case 5: if (!s.m.empty()) { s.a.pop_back(); s.m.pop_back(); } break;
    case 6: if (!s.m.empty()) { std::size_t i = r.below(s.m.size()); CELL c = Desc<CELL>::random(r); s.a[int(i)] = c; s.m[i] = c; } break;
    }
    vf::event("mutate");
}
template<class CELL, int N, int M> struct pool {
    static void history(vf::Rng& r) {
        const std::string K = Desc<CELL>::name();
        life::reg().ctx = K;
        unsigned long blocks = vf::alloc_state().live_blocks; std::size_t objs = life::reg().live.size();
        {
            std::unique_ptr<Slot<CELL, N> > a(new Slot<CELL, N>), b(new Slot<CELL, N>);
            std::unique_ptr<Slot<CELL, M> > c(new Slot<CELL, M>), d(new Slot<CELL, M>);
            std::string log = VF_STR(K << " " << N << "," << M << ":");
            int steps = int(r.range(6, 30));
            for (int s = 0; s < steps; ++s) {
                unsigned op = unsigned(r.below(11)); log += VF_STR(" " << op); vf::step(log);
                switch (op) {
                case 0: mutate(r, *a); break; case 1: mutate(r, *b); break; case 2: mutate(r, *c); break; case 3: mutate(r, *d); break;
                case 4: same(r, *a, *b, K, log); break; case 5: same(r, *c, *d, K, log); break;
                case 6: conv<CELL, N, M>::go(r, *a, *c, K, log); break; case 7: conv<CELL, M, N>::go(r, *d, *b, K, log); break;
                case 8: conv<CELL, M, N>::go(r, *c, *a, K, log); break; case 9: conv<CELL, N, M>::go(r, *b, *d, K, log); break;
                case 10: same(r, *b, *a, K, log); break;
                }
                verify<CELL, N>(a->a, a->m, K, log); verify<CELL, N>(b->a, b->m, K, log); verify<CELL, M>(c->a, c->m, K, log); verify<CELL, M>(d->a, d->m, K, log);
                vf::check(a->intact() && b->intact() && c->intact() && d->intact(), K + ":bounds", "memory next to an array changed; " + log);
            }
            vf::distinct(vf::hash_str(log) ^ vf::st().case_seed);
            if (vf::st().case_index < 1) vf::sample(log);
            vf::step(log + " end");
        }
        vf::check_lazy(life::reg().live.size() == objs, K + ":leaked-objects", [&] { return VF_STR(long(life::reg().live.size() - objs) << " member objects leaked; " << vf::st().step); });
        (void)blocks;
        life::reg().live.clear();
    }
};
template<class CELL, int N, int M> void run(uint64_t n) { vf::scenario(VF_STR(Desc<CELL>::name() << "-" << N << "-" << M), vf::scaled(n), [](vf::Rng& r) { pool<CELL, N, M>::history(r); }); }
VF_MAIN({
    run<Mix, 1, 3>(150); run<Mix, 5, 6>(200); run<Mix, 40, 9>(150); run<Arr, 6, 11>(250); run<Arr, 33, 32>(100); run<Part, 16, 4>(150); run<Two, 3, 8>(150);
    run<Str, 1, 2>(100); run<Str, 6, 9>(200); run<LV, 2, 1>(80); run<LV, 5, 8>(150); run<LV, 7, 7>(80); run<Two, 300, 270>(30); run<LV, 140, 131>(6);
})
