// C21: fault injection. Every operation is repeated with the n-th storage
// allocation or the n-th copy of a member failing, for n = 0, 1, ... until no
// fault is left to inject.
#include "vf_alloc.hpp"
#include "lifecells.hpp"
#include "strcell.hpp"
#include <libflatarray/soa_vector.hpp>
#include <functional>
#include <memory>
using namespace LibFlatArray;

static const long FRESH = LONG_MIN;
enum Kind { STORAGE, COPY };
static const char* kn(Kind k) { return k == STORAGE ? "storage" : "copy"; }
struct Snapshot { std::size_t objs, blocks; };
static Snapshot snap() { Snapshot s = {life::reg().live.size(), vf::alloc_state().counted_blocks}; return s; }

// runs op with the n-th fault of the kind; true: fault fired
static bool inject(Kind k, long n, const std::string& op, const std::function<void()>& f, bool& threw) {
    threw = false; bool fired;
    { vf::Quiet q; life::reg().ctx = op; } vf::step(VF_STR(op << " with failing " << kn(k) << " number " << n));
    if (k == STORAGE) vf::arm_failure(n, 1000); else { life::reg().copies = 0; life::reg().fired = false; life::reg().throw_at = n; }
    std::string what;
    try { f(); } catch (std::bad_alloc&) { threw = true; what = "bad_alloc"; } catch (life::copy_failure&) { threw = true; what = "copy"; } catch (std::exception& e) { threw = true; what = e.what(); }
    if (k == STORAGE) fired = vf::disarm_failure(); else { fired = life::reg().fired; life::reg().throw_at = -1; }
    if (fired) { vf::check(threw, op + ":" + kn(k) + ":swallowed", "an injected failure was not reported"); if (threw) vf::check(what == (k == STORAGE ? "bad_alloc" : "copy"), op + ":" + kn(k) + ":other-exception", "reported as " + what); }
    else vf::check(!threw, op + ":" + kn(k) + ":spurious", "reported a failure which did not happen: " + what);
    vf::event(std::string(fired ? "fault_" : "nofault_") + kn(k)); if (fired) { vf::event("fault_" + op); vf::distinct(vf::mix(vf::mix(vf::hash_str(op), k), n) + vf::st().case_index * 7); }
    return fired;
}

// ---- grids ------------------------------------------------------------------------
template<class C> struct G {
    typedef soa_grid<C> Grid;
    struct Model { long X, Y, Z; std::vector<long> v; };
    static void fill(Grid& g, Model& m, long X, long Y, long Z, vf::Rng& r) { g.resize(X, Y, Z); m.X = X; m.Y = Y; m.Z = Z; m.v.assign(X * Y * Z, FRESH); for (auto& x : m.v) if (r.chance(3, 4)) x = long(r.below(100000)); for (long i = 0; i < X * Y * Z; ++i) if (m.v[i] != FRESH) g.set(i % X, i / X % Y, i / X / Y, C(m.v[i])); }
    static void same(const Grid& g, const Model& m, const std::string& k, const std::set<long>& except = std::set<long>()) {
        if (!vf::check(long(g.dim_x()) == m.X && long(g.dim_y()) == m.Y && long(g.dim_z()) == m.Z, k + ":dimensions", "dimensions changed")) return;
        for (long i = 0; i < m.X * m.Y * m.Z; ++i) { C c = g.get(i % m.X, i / m.X % m.Y, i / m.X / m.Y); c.a.get(); if (!except.count(i)) vf::check_lazy(matches(c, m.v[i]), k + ":cell", [&] { return VF_STR("cell " << i << " changed"); }); }
        vf::event("cells_reread", m.X * m.Y * m.Z);
    }
    // consistent, every cell of the reported dimensions readable, and reusable
    static void usable(Grid& g, const std::string& k, vf::Rng& r) {
        long X = g.dim_x(), Y = g.dim_y(), Z = g.dim_z();
        vf::check(long(g.extent_x()) >= X && long(g.extent_y()) >= Y && long(g.extent_z()) >= Z && g.byte_size() >= std::size_t(X * Y * Z) * aggregated_member_size<C>::VALUE && ((X * Y * Z == 0) || g.data() != 0), k + ":inconsistent", "dimensions, extents and storage do not fit together");
        for (long i = 0; i < X * Y * Z; ++i) { C c = g.get(i % X, i / X % Y, i / X / Y); c.a.get(); c.b[2].get(); }
        if (X * Y * Z) { g.set(X - 1, Y - 1, Z - 1, C(4711)); vf::check(g.get(X - 1, Y - 1, Z - 1).is(4711), k + ":unusable", "set/get after the failure"); }
        Model m; long nx = 1 + r.below(3), ny = 1 + r.below(3), nz = 1 + r.below(2); fill(g, m, nx, ny, nz, r);
        if (!(X == nx && Y == ny && Z == nz)) same(g, m, k + ":reuse");
        Grid copy(g); vf::check(copy.dim_x() == g.dim_x(), k + ":reuse", "copy"); vf::event("reused");
    }
    static void run(vf::Rng& r, const std::string& T, long mx, long my, long mz) {
        auto D = [&](long m) { return 1 + long(r.below(m)); };
        for (Kind k : {STORAGE, COPY}) {
            for (long n = 0;; ++n) { // construction
                Snapshot s = snap(); bool th; bool f = inject(k, n, T + "-construct", [&] { Grid g(D(mx), D(my), D(mz)); g.set(0, 0, 0, C(5)); }, th); Snapshot e = snap();
                vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-construct:leak", VF_STR("objects " << s.objs << " -> " << e.objs << ", heap blocks " << s.blocks << " -> " << e.blocks)); if (!f) break; }
            for (long n = 0;; ++n) { // copy construction
                Grid g; Model m; fill(g, m, D(mx), D(my), D(mz), r); Snapshot s = snap(); bool th, f = inject(k, n, T + "-copy", [&] { Grid h(g); }, th); Snapshot e = snap();
                vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-copy:leak", VF_STR("objects " << s.objs << " -> " << e.objs << ", heap blocks " << s.blocks << " -> " << e.blocks)); same(g, m, T + "-copy:source"); if (!f) break; if (n > 40) n += n / 3; }
            for (long n = 0;; ++n) { // assignment
                Snapshot s = snap(); bool f; { Grid g, h; Model m, q; fill(g, m, D(mx), D(my), D(mz), r); if (r.chance(3, 4)) fill(h, q, r.chance(1, 2) ? m.X : D(mx), D(my), D(mz), r); bool th; f = inject(k, n, T + "-assign", [&] { h = g; }, th); same(g, m, T + "-assign:source"); if (!th) same(h, m, T + "-assign:result"); usable(h, T + "-assign", r); }
                Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-assign:leak", "objects or heap blocks left over"); if (!f) break; if (n > 40) n += n / 3; }
            for (long n = 0;; ++n) { // resize
                Snapshot s = snap(); bool f; { Grid g; Model m; if (r.chance(4, 5)) fill(g, m, D(mx), D(my), D(mz), r); bool th; f = inject(k, n, T + "-resize", [&] { g.resize(D(mx), D(my), D(mz)); }, th); usable(g, T + "-resize", r); } Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-resize:leak", "objects or heap blocks left over"); if (!f) break; }
        }
        for (int form = 0; form < 4; ++form) for (long n = 0;; ++n) { // element operations, member copies failing
            Snapshot s = snap(); bool f; { Grid g; Model m; fill(g, m, D(mx), D(my), D(mz), r); long x = r.below(m.X), y = r.below(m.Y), z = r.below(m.Z), c = 1 + r.below(m.X - x), i = x + m.X * (y + m.Y * z); std::string op = T + (form == 0 ? "-set" : form == 1 ? "-set-run" : form == 2 ? "-broadcast" : "-get"); std::set<long> ex; bool th;
                C one(r.below(1000)); std::vector<C> many(c, C(77)); if (form == 0) ex.insert(i); else if (form < 3) for (long j = 0; j < c; ++j) ex.insert(i + j);
                f = inject(COPY, n, op, [&] { if (form == 0) g.set(x, y, z, one); else if (form == 1) g.set(x, y, z, many.data(), c); else if (form == 2) g.broadcast(x, y, z, one, c); else g.get(x, y, z, many.data(), c); }, th);
                same(g, m, op, ex); usable(g, op, r); } Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-element:leak", "objects or heap blocks left over"); if (!f) break; }
        // unsupported dimensions
        { Snapshot s = snap(); for (int k = 0; k < 6; ++k) { long big[] = {21, 100, 4096, 1000000000, 13, 10}; long w = big[r.below(4)]; long d[3] = {D(mx), D(my), D(mz)}; int which = int(r.below(3)); d[which] = which == 0 ? w : which == 1 ? (w < 100 ? 10 : w) : (w < 100 ? 10 : w);
            bool refused = false; std::size_t b = vf::alloc_state().total_allocs; (void)b; try { Grid g(d[0], d[1], d[2]); } catch (std::out_of_range&) { refused = true; } vf::check(refused, T + "-unsupported:accepted", VF_STR(d[0] << "x" << d[1] << "x" << d[2]));
            Grid g; Model m; fill(g, m, D(mx), D(my), D(mz), r); const char* data = g.data(); refused = false; try { g.resize(d[0], d[1], d[2]); } catch (std::out_of_range&) { refused = true; } vf::check(refused, T + "-unsupported:accepted", VF_STR("resize " << d[0] << "x" << d[1] << "x" << d[2])); vf::check(g.data() == data, T + "-unsupported:storage", "storage replaced"); same(g, m, T + "-unsupported"); usable(g, T + "-unsupported", r); vf::event("refused_dimensions"); }
          Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-unsupported:leak", "objects or heap blocks left over"); }
    }
};
// ---- fixed-capacity array -----------------------------------------------------------
struct A {
    typedef soa_array<LV, 12> Arr; typedef soa_array<LV, 15> Wide;
    template<class S> static std::vector<long> fill(S& a, long n, vf::Rng& r) { std::vector<long> m; a.clear(); for (long i = 0; i < n; ++i) { m.push_back(r.below(100000)); a.push_back(LV(m[i])); } return m; }
    template<class S> static void same(S& a, const std::vector<long>& m, const std::string& k, const std::set<long>& ex = std::set<long>()) { if (!vf::check(a.size() == m.size(), k + ":size", VF_STR("size " << a.size() << " instead of " << m.size()))) return; for (std::size_t i = 0; i < m.size(); ++i) { LV c; a[int(i)] >> c; c.a.get(); if (!ex.count(i)) vf::check_lazy(c.is(m[i]), k + ":element", [&] { return VF_STR("element " << i << " changed"); }); } vf::event("elements_reread", m.size()); }
    template<class S> static void usable(S& a, const std::string& k, vf::Rng& r) { vf::check(a.size() <= a.capacity(), k + ":size", "size exceeds capacity"); for (std::size_t i = 0; i < a.size(); ++i) { LV c; a[int(i)] >> c; c.a.get(); c.d.get(); } std::vector<long> m = fill(a, 1 + r.below(12), r); same(a, m, k + ":reuse"); vf::event("reused"); }
    static void run(vf::Rng& r) {
        for (int op = 0; op < 10; ++op) for (long n = 0;; ++n) {
            static const char* names[] = {"array-construct", "array-copy", "array-copy-wide", "array-copy-nonconst", "array-assign", "array-assign-wide", "array-push", "array-write", "array-load", "array-swap"};
            std::string k = names[op]; Snapshot s = snap(); bool f, th;
            { std::unique_ptr<Arr> a(new Arr), b(new Arr); std::unique_ptr<Wide> w(new Wide); std::vector<long> m = fill(*a, 1 + r.below(11), r), q = fill(*b, r.below(12), r), v = fill(*w, 1 + r.below(12), r); Snapshot in = snap(); LV one(31415); long at = r.below(m.size()); void* mem = ::operator new(sizeof(Arr)); bool made = false; (void)made;
              in = snap();
              f = inject(COPY, n, k, [&] { switch (op) {
                  case 0: { Arr x(1 + r.below(12), one); break; } case 1: { const Arr& c = *a; Arr x(c); break; } case 2: { const Wide& c = *w; Arr x(c); break; } case 3: { Arr x(*w); break; }
                  case 4: *b = *a; break; case 5: *b = *(const Wide*)w.get(); break; case 6: a->push_back(one); break; case 7: (*a)[int(at)] << one; break; case 8: b->load((*w)[0], std::min<std::size_t>(v.size(), 12), 0); break; default: { using std::swap; swap(*a, *b); } } }, th);
              if (th) {
                  Snapshot o = snap(); vf::check(in.objs == o.objs && in.blocks == o.blocks, k + ":leak", VF_STR("objects " << in.objs << " -> " << o.objs << ", heap blocks " << in.blocks << " -> " << o.blocks));
                  if (op <= 5) same(*a, m, k + ":source"); if (op == 2 || op == 3 || op == 5 || op == 8) same(*w, v, k + ":source"); std::set<long> ex; if (op == 7) ex.insert(at); if (op == 6 || op == 7) same(*a, m, k, ex);
                  usable(*a, k, r); usable(*b, k, r); usable(*w, k, r);
              }
              ::operator delete(mem); }
            Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, k + ":leak-after", "objects or heap blocks left over"); if (!f) break; if (n > 40) n += n / 4;
        }
    }
};
// ---- growable array -------------------------------------------------------------------
template<class C> struct V {
    typedef soa_vector<C> Vec;
    static std::vector<long> fill(Vec& a, long n, vf::Rng& r) { std::vector<long> m; while (!a.empty()) a.pop_back(); for (long i = 0; i < n; ++i) { m.push_back(r.below(100000)); a.push_back(C(m[i])); } return m; }
    static void same(const Vec& a, const std::vector<long>& m, const std::string& k, long ex = -1) { if (!vf::check(a.size() == m.size() && a.capacity() >= m.size(), k + ":size", VF_STR("size " << a.size() << " instead of " << m.size()))) return; for (std::size_t i = 0; i < m.size(); ++i) { C c = a.get(i); if (long(i) != ex) vf::check_lazy(c.is(m[i]), k + ":element", [&] { return VF_STR("element " << i << " of " << m.size() << " changed"); }); } vf::event("elements_reread", m.size()); }
    static void usable(Vec& a, const std::string& k, vf::Rng& r) { vf::check(a.size() <= a.capacity(), k + ":size", "size exceeds capacity"); for (std::size_t i = 0; i < a.size(); ++i) { C c = a.get(i); c.a.get(); } std::vector<long> m = fill(a, r.below(40), r); same(a, m, k + ":reuse"); vf::event("reused"); }
    static void run(vf::Rng& r, const std::string& T) {
        for (Kind kind : {STORAGE, COPY}) for (int op = 0; op < 9; ++op) for (long n = 0;; ++n) {
            static const char* names[] = {"-construct", "-copy", "-assign", "-push", "-emplace", "-reserve", "-resize", "-set", "-pop"}; std::string k = T + names[op]; Snapshot s = snap(); bool f, th;
            { Vec a, b; long len = op == 3 || op == 4 ? long(r.chance(1, 2) ? 32 : r.below(70)) : 1 + long(r.below(50)); std::vector<long> m = fill(a, len, r); std::vector<long> q = fill(b, r.below(20), r); if ((op == 3 || op == 4) && r.chance(1, 2)) { while (a.size() < a.capacity() && m.size() < 200) { m.push_back(9); a.push_back(C(9)); } }
              C one(2718); long at = m.empty() ? -1 : long(r.below(m.size())); if (op == 7 && at < 0) break; if (op == 8 && m.empty()) break; Snapshot in = snap();
              f = inject(kind, n, k, [&] { switch (op) { case 0: { Vec x(1 + r.below(30), one); break; } case 1: { const Vec& c = a; Vec x(c); break; } case 2: b = a; break; case 3: a.push_back(one); break; case 4: a.emplace_back(2718, 2718); break; case 5: a.reserve(a.capacity() + 1 + r.below(50)); break; case 6: a.resize(a.capacity() + 1 + r.below(50)); break; case 7: a.set(at, one); break; default: a.pop_back(); } }, th);
              if (th) {
                  if (op < 2) { Snapshot o = snap(); vf::check(in.objs == o.objs && in.blocks == o.blocks, k + ":leak", VF_STR("objects " << in.objs << " -> " << o.objs << ", heap blocks " << in.blocks << " -> " << o.blocks)); }
                  if (op != 8) same(a, m, k, op == 7 ? at : -1); else { std::vector<long> rest(m.begin(), m.end() - 1); if (a.size() == m.size()) same(a, m, k, long(m.size()) - 1); else same(a, rest, k); }
                  if (op != 2) same(b, q, k + ":bystander");
              }
              usable(a, k, r); usable(b, k, r); }
            Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, k + ":leak-after", "objects or heap blocks left over"); if (!f) break; if (n > 30) n += n / 4;
        }
        // more elements than the size list supports
        { Snapshot s = snap(); { Vec a; std::vector<long> m = fill(a, 1 + r.below(30), r); for (int k = 0; k < 2; ++k) { bool refused = false; std::size_t big = r.chance(1, 2) ? std::size_t(1) << 40 : 1000000000; try { if (k) a.resize(big); else a.reserve(big); } catch (std::out_of_range&) { refused = true; } catch (std::bad_alloc&) { refused = true; } vf::check(refused, T + "-oversized:accepted", VF_STR(big)); same(a, m, T + "-oversized"); vf::event("refused_growth"); } usable(a, T + "-oversized", r); } Snapshot e = snap(); vf::check(s.objs == e.objs && s.blocks == e.blocks, T + "-oversized:leak", "left over"); }
    }
};
// ---- heap-owning members: allocation failures inside the copied members ----------------
static void strings(vf::Rng& r) {
    for (int op = 0; op < 6; ++op) for (long n = 0; n < 400; ++n) {
        static const char* names[] = {"strings-set", "strings-set-run", "strings-broadcast", "strings-copy", "strings-vector-push", "strings-array-copy"}; std::string k = names[op]; bool f = false, th = false; std::size_t before = vf::alloc_state().counted_blocks;
        { soa_grid<Str> g(4, 3, 2); std::vector<Str> m(24); for (int i = 0; i < 24; ++i) { m[i] = Desc<Str>::random(r); g.set(i % 4, i / 4 % 3, i / 12, m[i]); } soa_vector<StrV> v; std::vector<StrV> mv; for (int i = 0; i < 33; ++i) { mv.push_back(Desc<StrV>::random(r)); if (i < 32) v.push_back(mv[i]); }
          soa_array<StrV, 33> a; for (int i = 0; i < 20; ++i) a.push_back(mv[i]);
          Str one = Desc<Str>::random(r); one.s = std::string(50, 'x'); one.v[1].assign(9, 3); std::vector<Str> run(4, one); int i = int(r.below(6)) * 4, c = 1 + int(r.below(4)); std::size_t in = vf::alloc_state().counted_blocks;
          vf::step(VF_STR(k << " with failing allocation number " << n)); vf::arm_failure(n, 0);
          try { switch (op) { case 0: g.set(i % 4, i / 4 % 3, i / 12, one); break; case 1: g.set(i % 4, i / 4 % 3, i / 12, run.data(), c); break; case 2: g.broadcast(i % 4, i / 4 % 3, i / 12, one, c); break; case 3: { soa_grid<Str> h(g); break; } case 4: v.push_back(mv[32]); break; default: { soa_array<StrV, 40> x(a); } } } catch (std::bad_alloc&) { th = true; }
          f = vf::disarm_failure(); vf::check(f == th, k + ":swallowed", "failure not reported"); if (f) { vf::event("fault_strings"); vf::distinct(vf::mix(vf::hash_str(k), n)); }
          if (op == 0) c = 1; if (op < 3 || op == 3) for (int j = 0; j < 24; ++j) if (op == 3 || j < i || j >= i + c) { Str x = g.get(j % 4, j / 4 % 3, j / 12); const char* d = Desc<Str>::diff(x, m[j]); vf::check_lazy(!d, k + ":cell", [&] { return VF_STR("cell " << j << " changed"); }); } else { Str x = g.get(j % 4, j / 4 % 3, j / 12); vf::event("touched", x.s.size() + 1); }
          if (op == 4 && th) { vf::check(v.size() == 32, k + ":size", "size"); for (int j = 0; j < 32; ++j) { StrV x = v.get(j); vf::check_lazy(!Desc<StrV>::diff(x, mv[j]), k + ":element", [&] { return VF_STR("element " << j); }); } v.push_back(mv[32]); vf::check(!Desc<StrV>::diff(v.get(32), mv[32]), k + ":retry", "retry"); }
          std::size_t now = vf::alloc_state().counted_blocks; if (op == 5 || op == 3) vf::check(now == in, k + ":leak", VF_STR("heap blocks " << in << " -> " << now));
          if (op == 5) for (int j = 0; j < 20; ++j) { StrV x; a[j] >> x; vf::check(!Desc<StrV>::diff(x, mv[j]), k + ":source", "source changed"); } }
        std::size_t after = vf::alloc_state().counted_blocks; vf::check(after == before, k + ":leak-after", "heap blocks left over"); if (!f) break; if (n > 60) n += n / 3;
    }
}
VF_MAIN({
    vf::alloc_state().limit = std::size_t(1) << 28; vf::st().max_viol = 20; life::reg().live.reserve(1 << 17);
    vf::scenario("grid", vf::scaled(4), [](vf::Rng& r) { G<LG>::run(r, "grid", 5, 3, 2); });
    vf::scenario("grid-uniform", vf::scaled(2), [](vf::Rng& r) { G<LU>::run(r, "ugrid", 4, 3, 2); });
    vf::scenario("array", vf::scaled(3), [](vf::Rng& r) { A::run(r); });
    vf::scenario("vector", vf::scaled(2), [](vf::Rng& r) { V<LV>::run(r, "vector"); });
    vf::scenario("strings", vf::scaled(3), [](vf::Rng& r) { strings(r); });
    if (vf::st().only_set == 0) vf::check(life::reg().live.empty(), "objects-left", VF_STR(life::reg().live.size() << " member objects left alive"));
    vf::event("objects_constructed", life::reg().constructed); vf::event("objects_destroyed", life::reg().destroyed);
})
