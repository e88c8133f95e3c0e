// C08: fixed-capacity array as a bounded sequence.
#include "vf_alloc.hpp"
#include "strcell.hpp"
using namespace LibFlatArray;

template<class ARR> struct Guarded { // canaries for builds without ASan
    unsigned char pre[64]; ARR a; unsigned char post[64];
    Guarded() { std::memset(pre, 0xC1, 64); std::memset(post, 0xC1, 64); }
    bool intact() const { for (int i = 0; i < 64; ++i) if (pre[i] != 0xC1 || post[i] != 0xC1) return false; return true; }
};
static const int ANY = 1; // marker for unspecified elements is kept in `known`

template<class CELL, int N> struct seq {
    typedef soa_array<CELL, N> A;
    static void verify(A& a, const std::vector<CELL>& m, const std::vector<char>& known, const std::string& K, const std::string& log) {
        const A& ca = a;
        auto d = [&](const char* w) { return VF_STR(w << ": size " << a.size() << " model " << m.size() << " capacity " << N << "; history" << log); };
        bool s = vf::check_lazy(ca.size() == m.size(), K + ":size", [&] { return d("size"); });
        vf::check_lazy(ca.capacity() == std::size_t(N) && A::SIZE == std::size_t(N), K + ":capacity", [&] { return d("capacity"); });
        vf::check_lazy(ca.byte_size() == m.size() * Desc<CELL>::SIZE, K + ":byte-size", [&] { return d("byte size"); });
        if (!s) return;
        for (std::size_t i = 0; i < m.size(); ++i) {
            if (!known[i]) continue;
            CELL c = ca[int(i)]; const char* w = Desc<CELL>::diff(c, m[i]);
            vf::check_lazy(!w, K + ":element", [&] { return VF_STR("member " << w << " of element " << i << " " << d("element")); });
        }
        std::size_t n = 0;
        for (typename A::iterator it = a.begin(); it != a.end(); ++it) { if (n < m.size() && known[n]) { CELL c = it; vf::check_lazy(!Desc<CELL>::diff(c, m[n]), K + ":iteration", [&] { return d("iteration"); }); } if (++n > m.size() + 1) break; }
        vf::check_lazy(n == m.size(), K + ":iteration-range", [&] { return d("iteration range"); });
        if (!m.empty() && known.back()) { CELL c = a.back(); vf::check_lazy(!Desc<CELL>::diff(c, m.back()), K + ":back", [&] { return d("back"); }); }
    }
    template<class F> static void refused(F f, const std::string& K, const char* op, const std::string& log) {
        std::string what = "none";
        try { f(); } catch (std::out_of_range&) { what = "out_of_range"; } catch (std::exception& e) { what = e.what(); }
        vf::check_lazy(what == "out_of_range", K + ":refusal:" + op, [&] { return VF_STR(op << " beyond the bounds gave exception '" << what << "'; history" << log); });
        vf::event(std::string("refused_") + op);
    }
    static void history(vf::Rng& r) {
        const std::string K = VF_STR(Desc<CELL>::name() << "-" << N);
        Guarded<A>* g = new Guarded<A>();
        A& a = g->a;
        // second array: source of bulk loads, larger capacity
        typedef soa_array<CELL, N + 7> B;
        B* b = new B(); std::vector<CELL> mb;
        for (int i = 0; i < N + 7; ++i) { CELL c = Desc<CELL>::random(r); *b << c; mb.push_back(c); }
        std::vector<CELL> m; std::vector<char> known;
        std::string log;
        int steps = int(r.range(5, 30));
        for (int s = 0; s < steps; ++s) {
            unsigned op = unsigned(r.below(12));
            log += VF_STR(" " << op << "@" << m.size()); vf::step(K + log);
            switch (op) {
            case 0: case 1: { int n = int(r.range(1, N > 8 ? 6 : 2)); while (n--) { CELL c = Desc<CELL>::random(r); if (m.size() < std::size_t(N)) { if (r.chance(1, 2)) a << c; else a.push_back(c); m.push_back(c); known.push_back(1); vf::event("append"); } else refused([&] { if (n & 1) a << c; else a.push_back(c); }, K, "append", log); } break; }
            case 2: { int n = int(r.range(1, 3)); while (n--) { if (!m.empty()) { a.pop_back(); m.pop_back(); known.pop_back(); vf::event("pop"); } else refused([&] { a.pop_back(); }, K, "pop", log); } break; }
            case 3: if (r.chance(1, 2)) { a.clear(); m.clear(); known.clear(); vf::event("clear"); } break;
            case 4: if (!m.empty()) { std::size_t i = r.below(m.size()); CELL c = Desc<CELL>::random(r); if (r.chance(1, 2)) a[int(i)] = c; else a.at(i) << c; m[i] = c; known[i] = 1; vf::event("write"); } break;
            case 5: { // append by bulk load
                std::size_t from = r.below(mb.size()), n = r.below(mb.size() - from + 1); if (r.chance(1, 2)) n = std::min<std::size_t>(n, N - m.size());
                if (m.size() + n <= std::size_t(N)) { a.load((*b)[int(from)], n); for (std::size_t i = 0; i < n; ++i) { m.push_back(mb[from + i]); known.push_back(1); } vf::event("load"); }
                else refused([&] { a.load((*b)[int(from)], n); }, K, "load", log);
                break; }
            case 6: { // load at an offset
                std::size_t from = r.below(mb.size()), n = r.below(mb.size() - from + 1), off = r.below(N + 2);
                if (r.chance(1, 2) && off <= std::size_t(N)) n = std::min<std::size_t>(n, N - off);
                if (r.chance(1, 2)) off = std::min(off, m.size());
                if (off + n <= std::size_t(N)) {
                    if (off > m.size() && !n) { off = m.size(); }
                    a.load((*b)[int(from)], n, off);
                    if (off + n > m.size()) { std::size_t o = m.size(); m.resize(off + n); known.resize(off + n, 0); (void)o; }
                    for (std::size_t i = 0; i < n; ++i) { m[off + i] = mb[from + i]; known[off + i] = 1; }
                    vf::event("load_offset");
                } else refused([&] { a.load((*b)[int(from)], n, off); }, K, "load-offset", log);
                break; }
            case 7: { std::size_t big[] = {std::size_t(-1), std::size_t(-1) - 3, std::size_t(1) << 63, std::size_t(N) + 1}; std::size_t n = big[r.below(4)]; std::size_t off = r.below(N + 1); refused([&] { a.load((*b)[0], n, off); }, K, "load-huge", log); if (r.chance(1, 2)) refused([&] { a.load((*b)[0], off ? off : 1, n); }, K, "load-far", log); break; }
            case 8: refused([&] { std::size_t tn = N + 1 + r.below(5); A t(tn, Desc<CELL>::zero()); }, K, "construct", log); refused([&] { std::size_t tn = std::size_t(-1) - r.below(3); A t(tn); }, K, "construct-huge", log); break;
            case 9: { std::size_t n = r.below(N + 1); CELL c = Desc<CELL>::random(r); A* t = new A(n, c); verify(*t, std::vector<CELL>(n, c), std::vector<char>(n, 1), K + ":constructed", log); delete t; A* u = new A(n); verify(*u, std::vector<CELL>(n, Desc<CELL>::zero()), std::vector<char>(n, 1), K + ":default-constructed", log); delete u; vf::event("construct"); break; }
            case 10: if (!m.empty() && m.size() < std::size_t(N)) { // duplicate own elements
                std::size_t from = r.below(m.size()), n = std::min<std::size_t>(r.below(m.size() - from + 1), N - m.size());
                a.load(a[int(from)], n); for (std::size_t i = 0; i < n; ++i) { CELL c = m[from + i]; char k = known[from + i]; m.push_back(c); known.push_back(k); } vf::event("self_load"); } break;
            case 11: if (m.size() == std::size_t(N)) refused([&] { a << mb[0]; }, K, "append", log); else if (m.empty()) refused([&] { a.pop_back(); }, K, "pop", log); break;
            }
            verify(a, m, known, K, log);
            // canaries + source untouched
            vf::check_lazy(g->intact(), K + ":bounds", [&] { return "memory around the array changed;" + log; });
            for (std::size_t i = 0; i < mb.size(); ++i) { CELL c = (*b)[int(i)]; vf::check_lazy(!Desc<CELL>::diff(c, mb[i]), K + ":source", [&] { return "bulk load changed its source;" + log; }); }
        }
        vf::distinct(vf::hash_str(K + log));
        if (vf::st().case_index < 1) vf::sample(K + ":" + log);
        delete g; delete b;
    }
};
template<class CELL, int N> void run(uint64_t n) { vf::scenario(VF_STR(Desc<CELL>::name() << "-" << N), vf::scaled(n), [](vf::Rng& r) { seq<CELL, N>::history(r); }); }
VF_MAIN({
    run<Mix, 1>(150); run<Mix, 5>(300); run<Mix, 40>(200); run<Arr, 1>(100); run<Arr, 6>(300); run<Arr, 33>(200); run<Part, 16>(200); run<Str, 1>(60); run<Str, 8>(150); run<Two, 3>(200); run<Two, 300>(40); run<Arr, 140>(30);
})
