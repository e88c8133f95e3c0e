// C10: growable array against a standard vector.
#include "vf_alloc.hpp"
#include "strcell.hpp"
#include <memory>
using namespace LibFlatArray;

// member that refers to its own address
struct SelfRef { long v; const SelfRef* me; SelfRef(long v = 0) : v(v), me(this) {} SelfRef(const SelfRef& o) : v(o.v), me(this) {} SelfRef& operator=(const SelfRef& o) { v = o.v; return *this; } long get() const { return me == this ? v : -999; } };
struct Ref {
    struct API : public api_traits::has_default_1d_sizes {};
    SelfRef a; char t; SelfRef b[3];
    Ref(long v = 0, int k = 0) : a(v), t(char(k)) { for (int i = 0; i < 3; ++i) b[i].v = v + i; }
};
LIBFLATARRAY_REGISTER_SOA(Ref, ((SelfRef)(a))((char)(t))((SelfRef)(b)(3)))
template<> struct Desc<Ref> {
    static const char* name() { return "Ref"; }
    static Ref random(vf::Rng& r) { return Ref(long(r.below(1000000)) + 1, int(r.next())); }
    static Ref zero() { Ref x; for (int i = 0; i < 3; ++i) x.b[i].v = 0; return x; }
    static const char* diff(const Ref& a, const Ref& b) { if (a.a.get() != b.a.get()) return "a"; if (a.t != b.t) return "t"; for (int i = 0; i < 3; ++i) if (a.b[i].get() != b.b[i].get()) return "b"; return 0; }
};
// custom 1D sizes, small steps
struct Tiny {
    struct API : public api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(4)(7)(11)(20)(33)(500)) };
    unsigned short u; double d; char c[5];
    Tiny() : u(0), d(0) { std::memset(c, 0, 5); }
    Tiny(int v, double w) : u((unsigned short)v), d(w) { std::memset(c, v, 5); }
};
LIBFLATARRAY_REGISTER_SOA(Tiny, ((unsigned short)(u))((double)(d))((char)(c)(5)))
template<> struct Desc<Tiny> {
    static const char* name() { return "Tiny"; }
    static Tiny random(vf::Rng& r) { Tiny t(int(r.next()), double(r.next())); t.c[2] = char(r.next()); return t; }
    static Tiny zero() { return Tiny(); }
    static const char* diff(const Tiny& a, const Tiny& b) { if (a.u != b.u) return "u"; if (a.d != b.d) return "d"; if (std::memcmp(a.c, b.c, 5)) return "c"; return 0; }
};

template<class CELL> struct emplacer { template<class V> static CELL go(V& v, vf::Rng& r) { CELL c = Desc<CELL>::random(r); v.emplace_back(c); return c; } };
template<> struct emplacer<Ref> { template<class V> static Ref go(V& v, vf::Rng& r) { long a = long(r.below(100000)); int k = int(r.next()); v.emplace_back(a, k); return Ref(a, k); } };
template<> struct emplacer<Tiny> { template<class V> static Tiny go(V& v, vf::Rng& r) { int a = int(r.next()); double k = double(r.next()); v.emplace_back(a, k); return Tiny(a, k); } };
template<> struct emplacer<StrV> { template<class V> static StrV go(V& v, vf::Rng& r) { std::string s(r.below(40), char('a' + r.below(26))); int k = int(r.next()); v.emplace_back(s, k); return StrV(s, k); } };

// slot: what lies beyond the end. 0: never held an element (default members), 1: unknown, 2: last element was removed there
template<class CELL> struct Model {
    std::vector<CELL> v; std::vector<char> known, slot; std::size_t reserved = 0, cap = 0;
    void used() { if (slot.size() < v.size()) slot.resize(v.size(), 0); for (std::size_t i = 0; i < v.size(); ++i) slot[i] = 1; }
    // storage was exchanged: slots beyond the end are default constructed again
    void capacity(std::size_t c) { used(); if (c == cap) return; cap = c; bool same = !Desc<CELL>::diff(CELL(), Desc<CELL>::zero()); for (std::size_t i = v.size(); i < slot.size(); ++i) if (slot[i] == 2 && !same) slot[i] = 1; }
    void grow(std::size_t n) { used(); while (v.size() < n) { std::size_t i = v.size(); char st = i < slot.size() ? slot[i] : 0; v.push_back(st == 2 ? CELL() : Desc<CELL>::zero()); known.push_back(st != 1); if (st != 1) vf::event("default_elements"); } }
    void pop() { used(); slot[v.size() - 1] = 2; v.pop_back(); known.pop_back(); }
};

// kernel: sees the elements contiguously
template<class CELL> struct scan {
    const Model<CELL>* m; const char* bad; std::size_t* bad_at; int* calls;
    std::size_t dim = 0;
    template<class ACC> void operator()(ACC& acc) { body(acc); }
    template<class ACC> void body(ACC& acc) {
        ++*calls; dim = ACC::DIM_X;
        for (std::size_t i = 0; i < m->v.size(); ++i) {
            acc.index() = long(i);
            CELL c; c = CELL(acc);
            if (m->known[i]) { const char* w = Desc<CELL>::diff(c, m->v[i]); if (w && !bad) { bad = w; *bad_at = i; } }
        }
    }
};
template<class CELL> struct Hist {
    typedef soa_vector<CELL> V;
    static void verify(V& v, const Model<CELL>& m, const std::string& K, const std::string& log) {
        const V& cv = v;
        auto d = [&](const char* w) { return VF_STR(w << ": size " << cv.size() << " expected " << m.v.size() << " capacity " << cv.capacity() << "; " << log); };
        vf::check_lazy(cv.empty() == m.v.empty(), K + ":empty", [&] { return d("empty()"); });
        vf::check_lazy(cv.capacity() >= cv.size(), K + ":capacity-size", [&] { return d("capacity below size"); });
        vf::check_lazy(cv.capacity() >= m.reserved, K + ":capacity-reserved", [&] { return VF_STR("reserved " << m.reserved << " " << d("capacity")); });
        if (!vf::check_lazy(cv.size() == m.v.size(), K + ":size", [&] { return d("size"); })) return;
        for (std::size_t i = 0; i < m.v.size(); ++i) {
            if (!m.known[i]) continue;
            CELL c = cv.get(i); const char* w = Desc<CELL>::diff(c, m.v[i]);
            if (!vf::check_lazy(!w, K + ":element", [&] { return VF_STR("member " << w << " of element " << i << "; " << d("element")); })) break;
        }
        if (cv.capacity()) {
            int calls = 0; std::size_t at = 0;
            scan<CELL> f{&m, 0, &at, &calls};
            v.callback(std::ref(f));
            vf::check_lazy(calls == 1, K + ":kernel-calls", [&] { return VF_STR("kernel ran " << calls << " times; " << log); });
            vf::check_lazy(!f.bad, K + ":kernel-element", [&] { return VF_STR("kernel saw wrong member " << f.bad << " of element " << at << "; " << d("kernel")); });
            vf::check_lazy(f.dim >= cv.size(), K + ":kernel-storage", [&] { return VF_STR("kernel bound to storage of " << f.dim << " " << d("elements")); });
            vf::event("kernel_scan", m.v.size());
        }
    }
    static void history(vf::Rng& r, std::size_t scale) {
        const std::string K = Desc<CELL>::name();
        unsigned long blocks = vf::alloc_state().live_blocks; (void)blocks;
        std::unique_ptr<V> v[2]; Model<CELL> m[2];
        std::string log = K + ":";
        for (int k = 0; k < 2; ++k) {
            std::size_t n = r.below(3) ? r.below(scale) : 0;
            switch (r.below(4)) {
            case 0: v[k].reset(new V(n)); m[k].v.assign(n, Desc<CELL>::zero()); m[k].known.assign(n, 1); log += VF_STR(" ctor(" << n << ")"); break;
            case 1: { CELL c = Desc<CELL>::random(r); v[k].reset(new V(n, c)); m[k].v.assign(n, c); m[k].known.assign(n, 1); log += VF_STR(" ctor(" << n << ",v)"); break; }
            default: v[k].reset(new V()); log += " ctor()"; break;
            }
            vf::event("construct"); vf::step(log);
            verify(*v[k], m[k], K, log);
        }
        int steps = int(r.range(4, 26));
        for (int s = 0; s < steps; ++s) {
            int k = int(r.below(2)); V& a = *v[k]; Model<CELL>& q = m[k];
            unsigned op = unsigned(r.below(14));
            log += VF_STR(" " << k << ":" << op << "@" << q.v.size()); vf::step(log);
            switch (op) {
            case 0: case 1: case 2: { // appends, often right up to and over the capacity
                std::size_t n = r.below(scale / 2) + 1; if (r.chance(1, 2)) n = a.capacity() - q.v.size() + r.below(3);
                if (n > 3 * scale) n = 3 * scale;
                if (q.v.size() + n > 450 && std::is_same<CELL, Tiny>::value) break;
                while (n--) {
                    if (r.chance(1, 3)) q.v.push_back(emplacer<CELL>::go(a, r));
                    else { CELL c = (!q.v.empty() && q.known.back() && r.chance(1, 4)) ? a.get(q.v.size() - 1) : Desc<CELL>::random(r); a.push_back(c); q.v.push_back(c); }
                    q.known.push_back(1); vf::event("append");
                } break; }
            case 3: { std::size_t n = r.chance(1, 4) ? q.v.size() : r.below(6); while (n-- && !q.v.empty()) { q.capacity(a.capacity()); a.pop_back(); q.pop(); vf::event("pop"); } break; }
            case 4: { std::size_t n = r.below(2 * scale); if (r.chance(1, 3)) n = a.capacity() + r.below(2); if (std::is_same<CELL, Tiny>::value && n > 480) n = 480; q.used(); a.resize(n); q.capacity(a.capacity()); if (n < q.v.size()) { q.v.resize(n, Desc<CELL>::zero()); q.known.resize(n); } else q.grow(n); log += VF_STR("->" << n); vf::event("resize"); break; }
            case 5: { std::size_t n = r.below(3 * scale); if (r.chance(1, 3)) n = a.capacity() + r.below(2); if (std::is_same<CELL, Tiny>::value && n > 480) n = 480; a.reserve(n); q.reserved = std::max(q.reserved, n); log += VF_STR("->" << n); vf::event("reserve"); break; }
            case 6: if (r.chance(1, 2)) { q.used(); a.clear(); q.v.clear(); q.known.clear(); vf::event("clear"); } break;
            case 7: { V* t = new V(*v[1 - k]); std::size_t res = 0; v[k].reset(t); q = m[1 - k]; q.reserved = res; vf::event("copy"); break; }
            case 8: *v[k] = *v[1 - k]; q = m[1 - k]; q.reserved = 0; vf::event("assign"); break;
            case 9: { V& b = a; a = b; vf::event("self_assign"); break; }
            case 10: case 11: for (int i = 0; i < 4 && !q.v.empty(); ++i) { std::size_t j = r.chance(1, 3) ? q.v.size() - 1 : r.below(q.v.size()); CELL c = Desc<CELL>::random(r); a.set(j, c); q.v[j] = c; q.known[j] = 1; vf::event("write"); } break;
            case 12: { // swap through copies
                V t(*v[0]); *v[0] = *v[1]; *v[1] = t; std::swap(m[0], m[1]); m[0].reserved = m[1].reserved = 0; vf::event("assign"); break; }
            case 13: { const V& ca = a; V t(ca); t.push_back(Desc<CELL>::random(r)); if (t.size()) t.pop_back(); if (t.size()) { t.set(0, Desc<CELL>::random(r)); } vf::event("copy"); break; }
            }
            m[0].capacity(v[0]->capacity()); m[1].capacity(v[1]->capacity());
            verify(*v[0], m[0], K, log); verify(*v[1], m[1], K, log);
        }
        vf::distinct(vf::hash_str(log));
        if (vf::st().case_index < 1) vf::sample(log);
    }
    // one append at a time through all storage sizes
    static void growth(vf::Rng& r, std::size_t total) {
        const std::string K = std::string(Desc<CELL>::name()) + ":growth";
        V v; Model<CELL> m; std::size_t cap = 0;
        for (std::size_t i = 0; i < total; ++i) {
            CELL c = Desc<CELL>::random(r); v.push_back(c); m.v.push_back(c); m.known.push_back(1); vf::event("append");
            if (v.capacity() != cap) { vf::step(VF_STR(K << " at " << i << " capacity " << cap << "->" << v.capacity())); cap = v.capacity(); verify(v, m, K, vf::st().step); vf::event("growth"); vf::distinct(vf::hash_str(vf::st().step)); }
        }
        verify(v, m, K, "end");
        while (!m.v.empty()) { v.pop_back(); m.v.pop_back(); m.known.pop_back(); if (m.v.size() % 97 == 0) verify(v, m, K, "popping"); }
    }
};
// a removed element no longer holds on to what its members held
struct Held { struct API : public api_traits::has_default_1d_sizes {}; std::shared_ptr<int> p; int k; std::shared_ptr<int> q[2]; Held() : k(0) {} };
LIBFLATARRAY_REGISTER_SOA(Held, ((std::shared_ptr<int>)(p))((int)(k))((std::shared_ptr<int>)(q)(2)))
static void held(vf::Rng& r) {
    soa_vector<Held> v; std::vector<std::shared_ptr<int> > own; std::string log = "Held:";
    int steps = int(r.range(10, 90));
    for (int s = 0; s < steps; ++s) {
        bool pop = !own.empty() && r.chance(1, 3); int n = int(r.range(1, pop ? 4 : 9)); log += VF_STR(" " << (pop ? "pop" : "push") << n); vf::step(log);
        while (n--) {
            if (pop) { if (own.empty()) break; std::shared_ptr<int> o = own.back(); own.pop_back(); v.pop_back(); vf::check_lazy(o.use_count() == 1, "Held:released", [&] { return VF_STR("removed element still holds " << o.use_count() - 1 << " of 3 members; " << log); }); vf::event("removed_released"); }
            else { Held h; h.p = std::make_shared<int>(int(r.next())); h.k = *h.p; h.q[0] = h.q[1] = h.p; own.push_back(h.p); if (r.chance(1, 2)) v.push_back(h); else v.emplace_back(h); }
        }
        for (std::size_t i = 0; i < own.size(); ++i) { if (!vf::check_lazy(own[i].use_count() == 4, "Held:held", [&] { return VF_STR("element " << i << " is referred to " << own[i].use_count() - 1 << " times instead of 3; " << log); })) return; }
        for (std::size_t i = 0; i < own.size(); i += 7) { Held h = v.get(i); if (!vf::check_lazy(h.p == own[i] && h.q[0] == own[i] && h.q[1] == own[i] && h.k == *own[i], "Held:element", [&] { return VF_STR("element " << i << "; " << log); })) return; }
    }
    vf::distinct(vf::hash_str(log));
}
template<class CELL> void run(uint64_t n, std::size_t scale, std::size_t total) {
    vf::scenario(std::string(Desc<CELL>::name()) + "-history", vf::scaled(n), [scale](vf::Rng& r) { Hist<CELL>::history(r, scale); });
    vf::scenario(std::string(Desc<CELL>::name()) + "-growth", 1, [total](vf::Rng& r) { Hist<CELL>::growth(r, total); });
}
VF_MAIN({
#if PART == 0
    run<Part>(250, 70, vf::thorough() ? 70000 : 9000); run<Tiny>(400, 24, 480);
#else
    vf::scenario("Held", vf::scaled(60), held);
    run<StrV>(120, 40, 1200); run<Ref>(250, 70, vf::thorough() ? 9000 : 2300);
#endif
})
