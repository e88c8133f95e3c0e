// C25: the kernels of the example programs against plain loops. The programs'
// own sources are compiled in, their main() renamed. (Built with -fno-access-control.)
#include "guard.hpp"
#include "vf.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#ifdef _OPENMP
#include <omp.h>
#else
inline void omp_set_num_threads(int) {}
#endif
#define restrict __restrict
#define main example_main
#if PART == 0
extern "C" {
#include <../examples/jacobi/update_c99.c>
}
#include <../examples/jacobi/main.cpp>
#elif PART == 1
extern "C" {
#include <../examples/gauss/filter_c99.c>
}
#include <../examples/gauss/main.cpp>
#elif PART == 2
#include <../examples/performance_tests/main.cpp>
#elif PART == 4
#define __device__
#define __host__
struct vf_dim { long x, y, z; }; static vf_dim blockIdx, blockDim, threadIdx;
#include <libflatarray/flat_array.hpp>
// all the combinations of the 3D default take too long to compile with this kernel
#define has_default_3d_sizes has_default_3d_sizes_uniform
#include <../examples/lbm/cell.h>
#undef has_default_3d_sizes
#else
extern "C" {
#include <../examples/smoothed_particle_hydrodynamics/kernels.c>
}
#define LIBFLATARRAY_WITH_CPP14
#include <silo.h> // the stand-in from /verif/stub
#include <../examples/smoothed_particle_hydrodynamics/main.cpp>
#endif
#undef main
#undef restrict
#undef LIBFLATARRAY_WITH_CPP14

typedef std::vector<double> model;
static const char* NAME[] = {"jacobi", "gauss", "performance_tests", "sph", "lbm"};
static double value(vf::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return -1; case 2: return std::ldexp(double(r.below(1 << 20)) + 1, int(r.range(-200, 200))); case 3: return 1e-310; default: return double(long(r.below(2000001)) - 1000000) / 1024; } }
struct shape { int x, y, z; std::size_t at(int i, int j, int k) const { return (std::size_t(k) * y + j) * x + i; } std::size_t n() const { return std::size_t(x) * y * z; } };
static shape some(vf::Rng& r, int lo) {
    static const int edge[] = {8, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 191, 192, 193};
    shape s; s.x = r.chance(1, 2) ? edge[r.below(16)] : int(r.range(lo, 70)); if (r.chance(1, 30)) s.x = int(r.range(256, 600));
    s.y = int(r.range(lo, s.x > 200 ? 8 : r.chance(1, 4) ? 36 : 14)); s.z = int(r.range(lo, s.x > 200 ? 8 : r.chance(1, 4) ? 36 : 12)); if (s.y == 1) s.z = 1; /* flat grids are flat from the end */ return s;
}
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
template<class G, class MAKE> static void fill(G& g, const model& m, shape s, MAKE make) { for (int k = 0; k < s.z; ++k) for (int j = 0; j < s.y; ++j) for (int i = 0; i < s.x; ++i) g.set(i, j, k, make(m[s.at(i, j, k)])); }
// alt(i, j, k, v): the known finding (known_findings.txt) that explains v, or 0; what it explains is taken over
struct no_alt { const char* operator()(int, int, int, double) const { return 0; } };
template<class G, class ALT = no_alt> static void compare(const std::string& key, const G& g, model& want, shape s, ALT alt = ALT()) {
    std::size_t bad = 0, where = 0; double got = 0;
    for (int k = 0; k < s.z; ++k) for (int j = 0; j < s.y; ++j) for (int i = 0; i < s.x; ++i) { double v = g.get(i, j, k).temp, &w = want[s.at(i, j, k)]; const char* f = same(v, w) ? 0 : alt(i, j, k, v); if (f) { vf::violation(key + ":" + f, VF_STR("cell (" << i << ", " << j << ", " << k << ") is " << v << " instead of " << w)); w = v; } }
    for (int k = 0; k < s.z; ++k) for (int j = 0; j < s.y; ++j) for (int i = 0; i < s.x; ++i) { double v = g.get(i, j, k).temp; if (!same(v, want[s.at(i, j, k)]) && !bad++) { where = s.at(i, j, k); got = v; } }
    vf::check_lazy(!bad, key, [&] { return VF_STR(bad << " of " << s.n() << " cells differ; first (" << where % s.x << ", " << where / s.x % s.y << ", " << where / s.x / s.y << ") is " << got << " instead of " << want[where]); });
    vf::event("cells_compared", s.n());
}
struct no_alts { template<class M> no_alt operator()(const M&, const M&) const { return no_alt(); } };
template<class CELL, class F, class REF, class ALTS = no_alts> static void kernel(const std::string& key, vf::Rng& r, shape s, F f, REF ref, ALTS alts = ALTS()) {
    model a(s.n()), b(s.n()); for (auto& v : a) v = value(r); for (auto& v : b) v = value(r);
    int steps = int(r.range(1, 4)), threads = int(r.range(1, 5)); omp_set_num_threads(threads);
    vf::step(VF_STR(key << " (" << s.x << ", " << s.y << ", " << s.z << ") steps " << steps << " threads " << threads));
    LibFlatArray::soa_grid<CELL> g(s.x, s.y, s.z), h(s.x, s.y, s.z);
    auto make = [](double v) { return CELL(v); };
    fill(g, a, s, make); fill(h, b, s, make);
    for (int t = 0; t < steps; ++t) {
        model before(b); g.callback(&h, f); ref(b, a);
        compare(key + ":source", g, a, s); compare(key, h, b, s, alts(a, before));
        using std::swap; swap(g, h); swap(a, b);
    }
    vf::event(key + "_steps", steps); vf::distinct(vf::hash_str(vf::st().step)); if (vf::st().case_index < 2) vf::sample(vf::st().step);
}
struct capture { std::ostringstream s, t; std::streambuf *o, *e; capture() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(t.rdbuf())) {} ~capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
#if PART < 2
// The arguments for which the programs are known to fail, in a child process.
static void child(const std::string& key, std::vector<std::string> a, int want) {
    std::vector<char*> v; for (auto& t : a) v.push_back(&t[0]); v.push_back(0); std::string line; for (auto& t : a) line += t + " "; vf::step(line);
    std::fflush(0); pid_t pid = fork();
    if (pid == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); alarm(60); omp_set_num_threads(1); int rc = 99; try { rc = example_main(int(a.size()), v.data()); } catch (...) {} _exit(rc); }
    int st = 0; while (pid > 0 && waitpid(pid, &st, 0) != pid) {}
    vf::check(pid > 0 && WIFEXITED(st) && WEXITSTATUS(st) == want, key, VF_STR("wait status " << st << " instead of exit status " << want)); vf::event("program_children");
}
static void edges(vf::Rng&) {
    child("program:small", {"example", "9", PART ? "3" : "1", PART ? "3" : "1", "1"}, 0);
    child("program:negative", {"example", "9", "-9", "9", "1"}, 2);
    child("program:product", {"example", "4096", "2048", "1", "512"}, 0); // 2^32 updates asked for, though nothing to do in a flat grid
}
static void program(vf::Rng& r) { // the whole program, as a user starts it
    shape s = some(r, 4); if (r.chance(1, 2)) (r.chance(1, 2) ? s.x : r.chance(1, 2) ? s.y : s.z) = int(r.range(4, 9)); int steps = int(r.range(1, 3));
    std::vector<std::string> a = {"example", std::to_string(s.x), std::to_string(s.y), std::to_string(s.z), std::to_string(steps)};
    int mode = int(r.below(6)); int want = 0;
    if (mode == 0) { a.push_back("1"); want = 1; } else if (mode == 1) { a[1 + r.below(4)] = "0"; want = 2; }
    std::vector<char*> v; for (auto& t : a) v.push_back(&t[0]); v.push_back(0);
    std::string line; for (auto& t : a) line += t + " "; vf::step(line);
    int rc; std::string out, err; bool threw = false;
    { capture c; try { rc = example_main(int(a.size()), v.data()); } catch (const std::exception&) { threw = true; } out = c.s.str(); err = c.t.str(); }
    vf::check(!threw, "program:consistency", "the program's own consistency check failed"); if (threw) return;
    vf::check(rc == want, "program:status", VF_STR("exit status " << rc << " instead of " << want));
    std::size_t lines = std::count(out.begin(), out.end(), '\n');
    if (want) { vf::check(err.find("USAGE") != std::string::npos && out.empty(), "program:usage", "no usage message"); vf::event("program_usage"); }
    else { vf::check(lines == 3 && out.find("; C99 ") != std::string::npos && out.find("; LFA ") != std::string::npos, "program:rows", "not one row per implementation under the header"); vf::event("program_runs"); }
    vf::distinct(vf::hash_str(line));
}
#endif
#if PART == 0
static void ref7(model& n, const model& o, shape s) {
    for (int k = 1; k < s.z - 1; ++k) for (int j = 1; j < s.y - 1; ++j) for (int i = 1; i < s.x - 1; ++i)
        n[s.at(i, j, k)] = (o[s.at(i, j, k - 1)] + o[s.at(i, j - 1, k)] + o[s.at(i - 1, j, k)] + o[s.at(i + 1, j, k)] + o[s.at(i, j + 1, k)] + o[s.at(i, j, k + 1)]) * (1.0 / 6.0);
}
static void jacobi(vf::Rng& r) {
    shape s = some(r, 1);
    kernel<Cell>("lfa", r, s, update_functor(s.x, s.y, s.z), [&](model& n, const model& o) { ref7(n, o, s); });
    model a(s.n()), b(s.n()); for (auto& v : a) v = value(r); for (auto& v : b) v = value(r); model c(b);
    update_c99(b.data(), a.data(), s.x, s.y, s.z); ref7(c, a, s); bool ok = true; for (std::size_t i = 0; i < s.n(); ++i) ok = ok && same(b[i], c[i]);
    vf::check(ok, "c99", "the C implementation differs"); vf::event("c99_steps");
}
#elif PART == 1
static void gauss(vf::Rng& r) {
    shape s = some(r, 2);
    kernel<Cell>("lfa", r, s, filter_functor(s.x, s.y, s.z), [&](model& n, const model& o) { filter_c99(n.data(), o.data(), s.x, s.y, s.z); });
    // the filter preserves a constant area
    model a(s.n(), 3.0), b(s.n(), 3.0); filter_c99(b.data(), a.data(), s.x, s.y, s.z); bool ok = true; for (double v : b) ok = ok && std::fabs(v - 3) < 1e-12;
    vf::check(ok, "c99", "the C implementation does not preserve a constant area"); vf::event("c99_steps");
}
#elif PART == 2
static void vanilla(model& n, const model& o, shape s) {
    JacobiD3Q7Vanilla v; for (int k = 1; k < s.z - 1; ++k) for (int j = 1; j < s.y - 1; ++j) v.updateLine(const_cast<double*>(o.data()), n.data(), 1, j, k, s.x - 1, s.x, s.x * s.y); }
static void bronze(vf::Rng& r) {
    shape s = some(r, 1); auto ref = [&](model& n, const model& o) { vanilla(n, o, s); };
    kernel<JacobiCell>("bronze", r, s, JacobiD3Q7Bronze::UpdateFunctor(s.x, s.y, s.z), ref);
    // what these kernels are known to get wrong: the centre is left out, the last cell of a row is skipped, the weight of the row above
    struct stencil { shape s; bool inner(int i, int j, int k) const { return i && j && k && i < s.x - 1 && j < s.y - 1 && k < s.z - 1; }
        static double sum(const double* c, shape s, bool centre, double top) { double v = c[-s.x * s.y] * 0.11 + c[-s.x] * top + c[-1] * 0.13; if (centre) v += c[0] * 0.20; return v + c[1] * 0.15 + c[s.x] * 0.16 + c[s.x * s.y] * 0.17; } };
    auto wrong = [&](const double* c, double v) -> const char* { return same(v, stencil::sum(c, s, false, 0.12)) ? "centre-left-out" : 0; };
    auto alts = [&](const model& o, const model&) { return [&, wrong](int i, int j, int k, double v) -> const char* { return stencil{s}.inner(i, j, k) ? wrong(&o[s.at(i, j, k)], v) : 0; }; };
    auto silver = [&](const model& o, const model& b) { return [&, wrong](int i, int j, int k, double v) -> const char* { if (!stencil{s}.inner(i, j, k)) return 0; return i == s.x - 2 && same(v, b[s.at(i, j, k)]) ? "last-cell-skipped" : wrong(&o[s.at(i, j, k)], v); }; };
    kernel<JacobiCell>("gold", r, s, JacobiD3Q7Gold::UpdateFunctor(s.x, s.y, s.z), ref, alts);
    { // the reference itself
        model a(s.n()), b(s.n()); for (auto& v : a) v = value(r); for (auto& v : b) v = value(r); model c(b); vanilla(b, a, s); bool ok = true; auto at = [&](int i, int j, int k) { return a[s.at(i, j, k)]; };
        for (int k = 1; k < s.z - 1; ++k) for (int j = 1; j < s.y - 1; ++j) for (int i = 1; i < s.x - 1; ++i) c[s.at(i, j, k)] = at(i, j, k - 1) * 0.11 + at(i, j - 1, k) * 0.12 + at(i - 1, j, k) * 0.13 + at(i, j, k) * 0.20 + at(i + 1, j, k) * 0.15 + at(i, j + 1, k) * 0.16 + at(i, j, k + 1) * 0.17;
        for (std::size_t i = 0; i < s.n(); ++i) ok = ok && same(b[i], c[i]);
        vf::check(ok, "vanilla", "the plain stencil differs"); vf::event("c99_steps");
    }
#ifdef __SSE__
    s.x += s.x % 2 + 2; // these two want even rows of at least four cells
    kernel<JacobiCell>("silver", r, s, JacobiD3Q7Silver::UpdateFunctor(s.x, s.y, s.z), ref, silver);
    model a(s.n() + 8), b(s.n() + 8); std::size_t o = reinterpret_cast<std::size_t>(a.data()) / 8 % 2, q = reinterpret_cast<std::size_t>(b.data()) / 8 % 2; for (auto& v : a) v = value(r); for (auto& v : b) v = value(r); model c(b.begin() + q, b.begin() + q + s.n()), d(a.begin() + o, a.begin() + o + s.n());
    JacobiD3Q7Pepper p; for (int k = 1; k < s.z - 1; ++k) for (int j = 1; j < s.y - 1; ++j) p.updateLine(a.data() + o, b.data() + q, 1, j, k, s.x - 1, s.x, s.x * s.y);
    ref(c, d); bool ok = true; for (std::size_t i = 0; i < s.n(); ++i) if (!same(b[q + i], c[i])) {
        bool in = stencil{s}.inner(int(i % s.x), int(i / s.x % s.y), int(i / s.x / s.y)); const char* f = in ? wrong(&d[i], b[q + i]) : 0; if (in && !f && same(b[q + i], stencil::sum(&d[i], s, true, 0.17))) f = "wrong-weight";
        if (f) vf::violation(std::string("pepper:") + f, VF_STR("cell " << i << " is " << b[q + i] << " instead of " << c[i])); else ok = false; } vf::check(ok, "pepper", "the SSE stencil differs from the plain one"); vf::event("pepper_steps");
#endif
}
static void pairs(vf::Rng& r) { // number of pairs closer than a radius
    long n = long(r.range(0, r.chance(1, 3) ? 200 : 40)); int repeats = int(r.range(1, 3)); float radius2 = float(r.below(1000)) / 900;
    vf::step(VF_STR("pairs n=" << n << " repeats=" << repeats << " radius2=" << radius2));
    LibFlatArray::soa_vector<Particle> p; std::vector<Particle> q; 
    for (long i = 0; i < n; ++i) { Particle x(float(r.below(64)) / 64, float(r.below(64)) / 64, float(r.below(64)) / 64); p.push_back(x); q.push_back(x); }
    int want = 0, got = 0;
    for (auto& i : q) for (auto& j : q) { float x = i.posX - j.posX, y = i.posY - j.posY, z = i.posZ - j.posZ; if (x * x + y * y + z * z < radius2) ++want; }
    p.callback(ConditionalUpdater(repeats, n, radius2, &got));
    vf::check_lazy(got == want * repeats, "pairs", [&] { return VF_STR(got << " pairs instead of " << want * repeats); }); vf::event("pairs", n * n); vf::distinct(vf::hash_str(vf::st().step));
}
template<class B> static void run(vf::Rng& r, std::vector<int> dim) { capture c; B b; std::string s = b.species(); vf::step(VF_STR(b.family() << " " << s << " " << dim[0] << ", " << dim[1] << ", " << dim[2])); b.performance(dim); vf::check(true, "benchmark", ""); vf::event("benchmarks"); vf::distinct(vf::hash_str(vf::st().step)); }
static void benchmarks(vf::Rng& r) { // memory monitors only: their results are not visible
    int n = int(8 * r.range(1, 8)), t = int(r.range(1, 3));
    run<NBodyVanilla>(r, {n, t, 0}); run<NBodyGold>(r, {n, t, 0});
#ifdef __AVX__
    run<NBodyBronze>(r, {n, t, 0}); run<NBodySilver>(r, {n, t, 0}); run<NBodyCurry>(r, {n, t, 0}); run<NBodyIron>(r, {n, t, 0});
#endif
    int g = int(2 * r.range(1, 4)); int b = int(r.range(0, 40));
    run<ParticleMoverVanilla>(r, {g, b, t}); run<ParticleMoverPepper>(r, {g, b, t}); run<ParticleInteractorVanilla>(r, {g, b, t}); run<ParticleInteractorGold>(r, {g, b, t}); run<ConditionalAnyVanilla>(r, {g, b, t}); run<ConditionalAnyGold>(r, {g, b, t});
}
#elif PART == 4
// The same kernel code on a plain array of cells.
#define VF_LBM(F) F(C) F(N) F(E) F(W) F(S) F(T) F(B) F(NW) F(NE) F(SW) F(SE) F(TW) F(BW) F(TE) F(BE) F(TN) F(BN) F(TS) F(BS)
template<long D> struct plain {
    static const long DIM_X = D, DIM_Y = D; std::vector<CellLBM>* v; long* i; long off;
    long gen_index(long x, long y, long z) const { return (z * D + y) * D + x; }
    template<long X, long Y, long Z> plain operator[](LibFlatArray::coord<X, Y, Z>) const { return plain{v, i, off + (Z * D + Y) * D + X}; }
#define VF_F(M) double& M() const { return v->at(*i + off).M; }
    VF_LBM(VF_F)
#undef VF_F
};
// Stands for an accessor, wherever it is passed by value: the kernel's parameters are copies
// of the accessors whose index it is to advance (a known finding, see by_value below).
template<class A> struct handle {
    static const long DIM_X = A::DIM_X, DIM_Y = A::DIM_Y; A* a;
    long gen_index(long x, long y, long z) const { return A::gen_index(x, y, z); }
    template<long X, long Y, long Z> auto operator[](LibFlatArray::coord<X, Y, Z> c) const -> decltype((*a)[c]) { return (*a)[c]; }
#define VF_F(M) double& M() const { return a->M(); }
    VF_LBM(VF_F)
#undef VF_F
};
static void by_value(vf::Rng& r) { // the kernel on accessors; room on both sides of the storage for where it goes astray
    typedef LibFlatArray::soa_accessor<CellLBM, 8, 8, 8, 0> A; const std::size_t n = 19 * 8 * 8 * 8, room = 1000; model o(n + 2 * room), w(n + 2 * room); for (auto& v : o) v = double(r.below(4096)) / 1024; model x(w);
    blockIdx = threadIdx = vf_dim{0, 0, 0}; blockDim = vf_dim{1, 1, 1};
    A a((char*)(o.data() + room), 0), b((char*)(w.data() + room), 0), c((char*)(x.data() + room), 0), d(a.data(), 0); handle<A> e = {&d}, f = {&c};
    vf::step("kernel on accessors"); CellLBM::updateLine(a, &a.index(), b, &b.index(), 2, 3); CellLBM::updateLine(e, &d.index(), f, &c.index(), 2, 3);
    bool ok = true; for (std::size_t i = 0; i < w.size(); ++i) ok = ok && same(w[i], x[i]); vf::check(ok, "lbm:accessor-by-value", "the kernel does not follow the index it advances"); vf::event("lbm_accessors");
}
struct lbm_update {
    shape s; long z0, z1;
    template<class A, class B> void operator()(A& o, B& n) const { // as the CUDA kernel, one thread after the other
        blockDim = vf_dim{4, 2, 1};
        for (long y = 0; y < s.y - 4; ++y) for (long x = 0; x < s.x - 4; ++x) {
            blockIdx = vf_dim{x / 4, y / 2, 0}; threadIdx = vf_dim{x % 4, y % 2, 0};
            A a(o.data(), 0); B b(n.data(), 0); handle<A> p = {&a}; handle<B> q = {&b}; CellLBM::updateLine(p, &a.index(), q, &b.index(), z0, z1);
        }
    }
};
static std::string lbm_cell(const CellLBM& c) { std::string t;
#define VF_F(M) t += VF_STR(" " #M "=" << c.M);
    VF_LBM(VF_F)
#undef VF_F
    return t; }
static bool lbm_same(const CellLBM& a, const CellLBM& b) { return
#define VF_F(M) same(a.M, b.M) &&
    VF_LBM(VF_F)
#undef VF_F
    true; }
static void lbm(vf::Rng& r) {
    const long D = 40; shape s; s.x = int(r.range(5, 40)); s.y = int(r.range(5, 40)); s.z = int(r.range(5, r.chance(1, 4) ? 40 : 12)); int steps = int(r.range(1, 3)); long z0 = 2, z1 = s.z - 2; if (r.chance(1, 4)) { z0 = r.range(2, s.z - 3); z1 = r.range(z0, s.z - 2); }
    vf::step(VF_STR("lbm (" << s.x << ", " << s.y << ", " << s.z << ") steps " << steps << " z " << z0 << " to " << z1)); vf::distinct(vf::hash_str(vf::st().step)); if (vf::st().case_index < 2) vf::sample(vf::st().step);
    LibFlatArray::soa_grid<CellLBM> g(s.x, s.y, s.z), h(s.x, s.y, s.z); std::vector<CellLBM> a(D * D * s.z), b(a.size()); long i = 0, j = 0; plain<D> pa = {&a, &i, 0}, pb = {&b, &j, 0};
    for (long z = 0; z < s.z; ++z) for (long y = 0; y < s.y; ++y) for (long x = 0; x < s.x; ++x) { CellLBM c, d;
#define VF_F(M) c.M = double(r.below(4096)) / 1024; d.M = double(r.below(4096)) / 1024 - 9;
        VF_LBM(VF_F)
#undef VF_F
        g.set(x, y, z, c); h.set(x, y, z, d); a[pa.gen_index(x, y, z)] = c; b[pa.gen_index(x, y, z)] = d; }
    for (int t = 0; t < steps; ++t) {
        lbm_update f = {s, z0, z1}; g.callback(&h, f);
        for (long y = 0; y < s.y - 4; ++y) for (long x = 0; x < s.x - 4; ++x) { blockIdx = vf_dim{x, y, 0}; blockDim = vf_dim{1, 1, 1}; threadIdx = vf_dim{0, 0, 0}; CellLBM::updateLine(pa, &i, pb, &j, z0, z1); }
        for (int k = 0; k < 2; ++k) { std::size_t bad = 0; std::string msg; const std::vector<CellLBM>& w = k ? a : b; const LibFlatArray::soa_grid<CellLBM>& v = k ? g : h;
            for (long z = 0; z < s.z; ++z) for (long y = 0; y < s.y; ++y) for (long x = 0; x < s.x; ++x) { CellLBM c = v.get(x, y, z), d = w[pa.gen_index(x, y, z)]; if (!lbm_same(c, d) && !bad++) msg = VF_STR("(" << x << ", " << y << ", " << z << ") is" << lbm_cell(c) << " instead of" << lbm_cell(d)); }
            vf::check_lazy(!bad, k ? "lfa:source" : "lfa", [&] { return VF_STR(bad << " cells differ; first " << msg); }); vf::event("cells_compared", s.n()); }
        using std::swap; swap(g, h); swap(a, b); vf::event("lfa_steps");
    }
}
#else
// Positions and decisions in float, as the kernels do; the sums in double,
// along with the sum of their terms' magnitudes, to which rounding is relative.
struct cloud {
    std::size_t n; std::vector<float> c[7]; // rho, pos, v, a
    explicit cloud(std::size_t n) : n(n) { for (auto& v : c) v.assign(n, 0); }
};
struct parameters { float h, mass, g, k, rho0, mu; };
struct sums { std::vector<double> v, mag; explicit sums(std::size_t n) : v(n), mag(n) {} void add(std::size_t i, double x, double m) { v[i] += x; mag[i] += m; } };
static sums density(const cloud& p, const parameters& q) {
    sums r(p.n); float h2 = q.h * q.h; double c = 4 * double(q.mass) / M_PI / std::pow(double(q.h), 8);
    for (std::size_t i = 0; i < p.n; ++i) r.add(i, 4 * double(q.mass) / M_PI / h2, 4 * double(q.mass) / M_PI / h2);
    for (std::size_t i = 0; i < p.n; ++i) for (std::size_t j = i + 1; j < p.n; ++j) {
        float dx = p.c[1][i] - p.c[1][j], dy = p.c[2][i] - p.c[2][j], o = h2 - (dx * dx + dy * dy);
        if (o > 0) { double t = c * o * o * o; r.add(i, t, t); r.add(j, t, t); }
    }
    return r;
}
static void accel(const cloud& p, const parameters& q, sums& ax, sums& ay) {
    float h2 = q.h * q.h; double c0 = double(q.mass) / M_PI / (double(h2) * h2), cp = 15 * double(q.k), cv = -40 * double(q.mu);
    for (std::size_t i = 0; i < p.n; ++i) ay.add(i, -q.g, std::fabs(q.g));
    for (std::size_t i = 0; i < p.n; ++i) for (std::size_t j = i + 1; j < p.n; ++j) {
        float dx = p.c[1][i] - p.c[1][j], dy = p.c[2][i] - p.c[2][j], d2 = dx * dx + dy * dy;
        if (!(d2 < h2)) continue;
        double ri = p.c[0][i], rj = p.c[0][j], s = std::sqrt(double(d2)) / q.h, u = 1 - s, w0 = c0 * u / ri / rj, m0 = std::fabs(c0 / ri / rj);
        double wp = w0 * cp * (ri + rj - 2 * double(q.rho0)) * u / s, mp = m0 * std::fabs(cp) * (std::fabs(ri) + std::fabs(rj) + 2 * std::fabs(q.rho0)) / s, wv = w0 * cv, mv = m0 * std::fabs(cv);
        double vx = double(p.c[3][i]) - p.c[3][j], vy = double(p.c[4][i]) - p.c[4][j], mvx = std::fabs(p.c[3][i]) + std::fabs(p.c[3][j]), mvy = std::fabs(p.c[4][i]) + std::fabs(p.c[4][j]);
        double tx = wp * dx + wv * vx, ty = wp * dy + wv * vy, nx = mp * std::fabs(dx) + mv * mvx, ny = mp * std::fabs(dy) + mv * mvy;
        ax.add(i, tx, nx); ax.add(j, -tx, nx); ay.add(i, ty, ny); ay.add(j, -ty, ny);
    }
}
static double worst = 0;
static void close(const std::string& key, const float* got, const sums& want) {
    std::size_t bad = 0, where = 0; double tol = 3e-3; // four reciprocals of 12 bits (AVX)
    for (std::size_t i = 0; i < want.v.size(); ++i) { double e = std::fabs(double(got[i]) - want.v[i]), lim = tol * want.mag[i]; if (want.mag[i] > 0) worst = std::max(worst, e / want.mag[i]); if (!(e <= lim) && !bad++) where = i; }
    vf::check_lazy(!bad, key, [&] { return VF_STR(bad << " of " << want.v.size() << " particles differ; first " << where << ": " << got[where] << " instead of " << want.v[where] << " (magnitude " << want.mag[where] << ")"); });
    vf::event("particles_compared", want.v.size());
}
static cloud particles(vf::Rng& r, std::size_t n, float h) {
    cloud p(n); float box = h * float(1 + r.below(12)) / 2; bool lattice = r.chance(1, 3); 
    for (std::size_t i = 0; i < n; ++i) for (int tries = 0;; ++tries) { // no two too close together
        float x = lattice ? h / 1.3f * (i % 7) : box * float(r.below(65536)) / 65536, y = lattice ? h / 1.3f * (i / 7) : box * float(r.below(65536)) / 65536; bool ok = true;
        for (std::size_t j = 0; ok && j < i; ++j) { float dx = x - p.c[1][j], dy = y - p.c[2][j]; ok = dx * dx + dy * dy > 1e-4f * h * h; }
        if (!ok && tries < 100) continue; if (!ok) x = box * (2 + i), y = 0;
        p.c[0][i] = float(r.range(100, 4000)); p.c[1][i] = x; p.c[2][i] = y; p.c[3][i] = float(r.range(-1000, 1000)) / 100; p.c[4][i] = float(r.range(-1000, 1000)) / 100; p.c[5][i] = 77; p.c[6][i] = -55; break;
    }
    return p;
}
struct Kernels { // run on the grid's accessor, whatever storage size it has
    const cloud* p; parameters q; std::vector<float>* out; long* dim;
    template<class A> void operator()(A& a) {
        std::size_t n = p->n; float* col[7] = {&a.rho(), &a.pos_x(), &a.pos_y(), &a.v_x(), &a.v_y(), &a.a_x(), &a.a_y()}; *dim = long(a.DIM_X);
        for (int k = 0; k < 7; ++k) { for (std::size_t i = 0; i < n; ++i) col[k][i] = p->c[k][i]; for (long i = long(n); i < *dim; ++i) col[k][i] = float(i) + k; } // what lies behind must neither count nor change
        for (int k = 3; k < 5; ++k) std::fill(col[k] + n, col[k] + *dim, NAN); std::fill(col[1] + n, col[1] + *dim, p->c[1][0]);
        compute_accel_lfa(int(n), a, q.mass, q.g, q.h, q.k, q.rho0, q.mu);
        std::vector<float> rho(col[0], col[0] + n); compute_density_lfa(int(n), a, q.h, q.mass);
        for (int k = 0; k < 7; ++k) out[k].assign(col[k], col[k] + *dim);
        out[7] = rho;
    }
};
static void sph(vf::Rng& r) {
    static const int edge[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129};
    std::size_t n = r.chance(1, 3) ? edge[r.below(14)] : std::size_t(r.range(1, r.chance(1, 4) ? 300 : 90)); parameters q = {float(r.range(5, 200)) / 1000, float(r.range(1, 100)) / 50, float(r.range(-20, 20)), float(r.range(0, 2000)), float(r.range(500, 1500)), float(r.range(0, 30)) / 100};
    vf::step(VF_STR("n=" << n << " h=" << q.h << " mass=" << q.mass << " g=" << q.g << " k=" << q.k << " rho0=" << q.rho0 << " mu=" << q.mu)); vf::distinct(vf::hash_str(vf::st().step)); if (vf::st().case_index < 3) vf::sample(vf::st().step);
    cloud p = particles(r, n, q.h); sums ax(n), ay(n); accel(p, q, ax, ay); sums rho = density(p, q);
    std::vector<float> out[8]; long dim = 0; LibFlatArray::soa_grid<Particle> g(n, 1, 1); Kernels k = {&p, q, out, &dim}; g.callback(k);
    close("accel-x", out[5].data(), ax); close("accel-y", out[6].data(), ay); close("density", out[0].data(), rho);
    bool kept = out[7] == p.c[0]; for (int c = 1; c < 5; ++c) kept = kept && std::equal(p.c[c].begin(), p.c[c].end(), out[c].begin());
    for (int c : {0, 2, 5, 6}) for (long i = long(n); i < dim; ++i) kept = kept && out[c][i] == float(i) + c;
    vf::check(kept, "rest", "the kernels changed a particle's position or speed, or what lies behind the particles");
    cloud d = p; compute_accel(int(n), d.c[0].data(), d.c[1].data(), d.c[2].data(), d.c[3].data(), d.c[4].data(), d.c[5].data(), d.c[6].data(), q.mass, q.g, q.h, q.k, q.rho0, q.mu); compute_density(int(n), d.c[0].data(), d.c[1].data(), d.c[2].data(), q.h, q.mass);
    close("c99", d.c[5].data(), ax); close("c99", d.c[6].data(), ay); close("c99", d.c[0].data(), rho); vf::event("c99_steps"); vf::event("lfa_steps"); vf::event("dim_" + std::to_string(dim));
}
static bool dumps(int (*f)(int, char**), std::size_t limit, std::vector<silo::dump>& out) { silo::rec().dumps.clear(); silo::rec().limit = limit; bool stopped = false; { capture c; try { f(1, 0); } catch (const silo::stop&) { stopped = true; } } out = silo::rec().dumps; return stopped; }
static void program(vf::Rng& r) { // the whole program, stopped after some dumps (every 15 steps)
    std::size_t limit = std::size_t(r.range(2, 4)); vf::step(VF_STR("program, " << limit << " dumps")); std::vector<silo::dump> a; bool ok = dumps(example_main, limit, a);
    vf::check(ok && a.size() == limit, "program:dumps", "not stopped at the expected dump"); if (!ok) return;
    float h = 2e-2, hh = h / 1.3; int n = count_particles(hh), t = 0; std::vector<float> c[7]; for (auto& v : c) v.assign(n, 0); float mass = 1;
    place_particles(n, c[1].data(), c[2].data(), c[3].data(), c[4].data(), hh); compute_density(n, c[0].data(), c[1].data(), c[2].data(), h, mass); normalize_mass(&mass, n, c[0].data(), 1000);
    for (auto& d : a) {
        for (; t < d.cycle; ++t) { compute_density(n, c[0].data(), c[1].data(), c[2].data(), h, mass); compute_accel(n, c[0].data(), c[1].data(), c[2].data(), c[3].data(), c[4].data(), c[5].data(), c[6].data(), mass, 9.8f, h, 1e3f, 1000, 0.1f); leapfrog(n, c[1].data(), c[2].data(), c[3].data(), c[4].data(), c[5].data(), c[6].data(), 1e-4f); reflect_bc(n, c[1].data(), c[2].data(), c[3].data(), c[4].data()); }
        double far = 0; bool fits = d.x.size() == std::size_t(n); if (fits) for (int i = 0; i < n; ++i) { double e = std::max(std::fabs(double(d.x[i]) - c[1][i]), std::fabs(double(d.y[i]) - c[2][i])); if (!(e <= far)) far = e; }
        vf::check(fits && far < 1e-3 * h, "program:positions", VF_STR("at step " << d.cycle << " a particle is " << far << " away from where the plain C kernels put it")); vf::event("program_runs"); if (getenv("VF_SHOW")) std::fprintf(stderr, "step %d far %g\n", d.cycle, far / h);
    }
}
#endif
VF_MAIN({
#if PART == 0
    vf::scenario("edges", 1, edges); vf::scenario("jacobi", vf::scaled(120), jacobi); vf::scenario("program", vf::scaled(12), program);
#elif PART == 1
    vf::scenario("edges", 1, edges); vf::scenario("gauss", vf::scaled(100), gauss); vf::scenario("program", vf::scaled(12), program);
#elif PART == 4
    vf::scenario("by-value", 1, by_value); vf::scenario("lbm", vf::scaled(60), lbm);
#elif PART == 3
    vf::scenario("sph", vf::scaled(150), sph); vf::scenario("program", vf::scaled(2), program);
    if (getenv("VF_SHOW")) std::fprintf(stderr, "worst %g\n", worst);
#else
    vf::scenario("stencils", vf::scaled(80), bronze); vf::scenario("pairs", vf::scaled(200), pairs); vf::scenario("benchmarks", vf::scaled(4), benchmarks);
#endif
})
