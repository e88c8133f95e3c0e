// C22: device code paths on an emulated device with separate address classes.
#include "cells.hpp"
#include <libflatarray/cuda_array.hpp>
#include <list>
using namespace LibFlatArray;
using vf_cuda::emu;

struct Streak { int origin[3]; long n; long length() const { return n; } };

// ---- host memory: either in the arena (inaccessible to kernels) or exactly sized on the heap
template<class T> struct Buf {
    T* p; std::size_t n; bool heap;
    Buf(std::size_t n, vf::Rng& r) : n(n), heap(r.chance(1, 2)) { p = heap ? (T*)std::malloc(n * sizeof(T) ? n * sizeof(T) : 1) : (T*)vf_cuda::host(n * sizeof(T)); for (std::size_t i = 0; i < n; ++i) new (p + i) T(); }
    ~Buf() { for (std::size_t i = 0; i < n; ++i) p[i].~T(); if (heap) std::free(p); }
    T& operator[](std::size_t i) { return p[i]; }
};
// ---- member with observed device-side lifetime ---------------------------------------
struct DevReg { std::set<const void*> live; unsigned long made = 0, gone = 0; };
static DevReg& dreg() { static DevReg r; return r; }
struct DevObj {
    int val;
    static bool dev(const void* p) { return vf_cuda::is_device(p); }
    DevObj() : val(0) { if (dev(this)) { ++dreg().made; if (!dreg().live.insert(this).second) vf::violation("device:constructed-twice", "member constructed over a live member"); } }
    DevObj(const DevObj& o) : val(o.val) { if (dev(this)) { ++dreg().made; dreg().live.insert(this); } }
    DevObj& operator=(const DevObj& o) { val = o.val; return *this; }
    ~DevObj() { if (dev(this)) { ++dreg().gone; if (!dreg().live.erase(this)) vf::violation("device:destroyed-without-construction", "member destroyed which is not alive"); } }
    bool operator==(const DevObj& o) const { return val == o.val; }
};
template<> inline DevObj rnd<DevObj>(vf::Rng& r) { DevObj d; d.val = int(r.next()); return d; }
#define L_Dev(S, A) S(double, t) S(DevObj, o) S(char, c) A(DevObj, q, 2) S(int, k)
struct Dev {
    struct API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((8)(40), (4)(6)(10), (2)(7)) };
    double t; DevObj o; char c; DevObj q[2]; int k;
};
template<> struct Desc<Dev> {
    static const char* name() { return "Dev"; }
    static Dev random(vf::Rng& r) { Dev c; c.t = rnd<double>(r); c.o = rnd<DevObj>(r); c.c = rnd<char>(r); c.q[0] = rnd<DevObj>(r); c.q[1] = rnd<DevObj>(r); c.k = rnd<int>(r); return c; }
    static Dev zero() { Dev c; c.t = 0; c.c = 0; c.k = 0; return c; }
    static const char* diff(const Dev& a, const Dev& b) { L_Dev(VF_CMP_S, VF_CMP_A) return 0; }
    template<class ACC, class F> static void visit(ACC&& acc, F f) { int _m = 0; L_Dev(VF_VIS_S, VF_VIS_A) (void)_m; }
    template<class F> static void raw(const Dev& c, F f) { int _m = 0; L_Dev(VF_RAW_S, VF_RAW_A) (void)_m; }
    static const std::size_t SIZE = 0 L_Dev(VF_SZ_S, VF_SZ_A), MEMBERS = 5;
};
LIBFLATARRAY_REGISTER_SOA(Dev, ((double)(t))((DevObj)(o))((char)(c))((DevObj)(q)(2))((int)(k)))

// rows longer than one block of threads
#define L_Long(S, A) A(float, p, 3) S(double, m) S(unsigned char, id)
struct Long { struct API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((64)(600)(2600), (1), (1)) }; L_Long(VF_DECL_S, VF_DECL_A) };
VF_DESC(Long, L_Long)
LIBFLATARRAY_REGISTER_SOA(Long, ((float)(p)(3))((double)(m))((unsigned char)(id)))

// many blocks of threads in each direction
#define L_Tall(S, A) S(short, a) A(char, b, 2) S(int, c)
struct Tall { struct API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((6)(150), (4)(15)(520), (3)(300)) }; L_Tall(VF_DECL_S, VF_DECL_A) };
VF_DESC(Tall, L_Tall)
LIBFLATARRAY_REGISTER_SOA(Tall, ((short)(a))((char)(b)(2))((int)(c)))

template<class CELL> struct byte_map {
    std::vector<int>* owner; char* base; long dx, dy, dz; std::string* err;
    template<long DX, long DY, long DZ, long I> void operator()(soa_accessor<CELL, DX, DY, DZ, I>& acc) const {
        for (long z = 0; z < dz; ++z) for (long y = 0; y < dy; ++y) for (long x = 0; x < dx; ++x) {
            acc.index() = soa_accessor<CELL, DX, DY, DZ, I>::gen_index(x, y, z); int id = int((z * dy + y) * dx + x + 1);
            Desc<CELL>::visit(acc, [&](const char* n, int, int, const char* p, std::size_t s) { for (std::size_t b = 0; b < s; ++b) { long off = p + b - base; if (off < 0 || off >= long(owner->size())) { if (err->empty()) *err = VF_STR("member " << n << " lies outside the storage"); return; } (*owner)[off] = id; } });
        }
    }
};
// ---- a kernel of the user's: reads neighbours through accessors, writes other cells ---
template<class CELL, long DX, long DY, long DZ, long I> void shift_kernel(char* from, char* to, long X, long Y, long Z) {
    long x = blockDim.x * blockIdx.x + threadIdx.x, y = blockDim.y * blockIdx.y + threadIdx.y, z = blockDim.z * blockIdx.z + threadIdx.z;
    if (x >= X || y >= Y || z >= Z) return;
    long ia = soa_accessor_light<CELL, DX, DY, DZ, I>::gen_index((x + 1) % X, y, z), ib = soa_accessor_light<CELL, DX, DY, DZ, I>::gen_index(x, y, z);
    soa_accessor_light<CELL, DX, DY, DZ, I> a(from, ia), b(to, ib);
    CELL c; a >> c; b << c;
}
template<class CELL> struct shift_functor {
    char* to; long X, Y, Z;
    template<long DX, long DY, long DZ, long I> void operator()(soa_accessor<CELL, DX, DY, DZ, I>& acc) const { vf_cuda::launch(vf_cuda::config(dim3((X + 3) / 4, (Y + 1) / 2, Z), dim3(4, 2, 1)), std::make_tuple(acc.data(), to, X, Y, Z), [](auto&... a) { shift_kernel<CELL, DX, DY, DZ, I>(a...); }); }
};
static void put_raw(char*, std::size_t) {}
template<class CELL> void put(char* block, std::size_t count, std::size_t i, const CELL& c) { std::size_t off = 0; int last = -1; std::size_t msize = 0; Desc<CELL>::raw(c, [&](int m, int e, const char* p, std::size_t s) { if (m != last) { off += msize * count; msize = 0; last = m; } std::memcpy(block + off + s * (e * count + i), p, s); msize += s; }); }

template<class CELL> void history(vf::Rng& r, long mx, long my, long mz, int steps, const long* fixed = 0) {
    typedef soa_grid<CELL, cuda_allocator<char>, true> Grid;
    const std::string K = std::string("grid:") + Desc<CELL>::name(); Desc<CELL> desc; (void)desc; (void)&put_raw;
    std::size_t blocks0 = emu().live.size(), objs0 = dreg().live.size(); vf_cuda::host_reset(); emu().rng = vf::Rng(r.next());
    const int OBJS = sizeof(typename std::conditional<std::is_same<CELL, Dev>::value, char[3], char[1]>::type) == 3 ? 3 : 0;
    {
        long X = 1 + r.below(mx), Y = 1 + r.below(my), Z = 1 + r.below(mz);
        if (r.chance(1, 3)) { X = mx; } if (r.chance(1, 3)) Y = 1 + r.below(std::min(my, 4l)); if (r.chance(1, 4)) Z = 1;
        if (fixed) { X = fixed[0]; Y = fixed[1]; Z = fixed[2]; }
        Grid* g = new (vf_cuda::host(sizeof(Grid))) Grid(X, Y, Z); std::vector<CELL> model(X * Y * Z, Desc<CELL>::zero()); const Grid* cg = g;
        std::vector<int> owner; std::vector<char> before, now; std::string log = VF_STR(K << " " << X << "x" << Y << "x" << Z);
        auto map = [&] { owner.assign(g->byte_size(), 0); std::string err; byte_map<CELL> bm{&owner, g->data(), X, Y, Z, &err}; g->callback(bm); vf::check(err.empty(), K + ":storage", err); };
        auto raw = [&](std::vector<char>& v) { v.assign(g->byte_size(), 0); cudaMemcpy(v.data(), g->data(), v.size(), cudaMemcpyDeviceToHost); };
        auto cmp = [&](const CELL& a, long i, const char* what) { const char* m = Desc<CELL>::diff(a, model[i]); vf::check_lazy(!m, K + ":" + what, [&] { return VF_STR("member " << m << " of cell " << i << " wrong: " << log); }); };
        auto all = [&](const char* what) { for (long z = 0; z < Z; ++z) for (long y = 0; y < Y; ++y) { Buf<CELL> row(X, r); cg->get(0, y, z, row.p, X); for (long x = 0; x < X; ++x) cmp(row[x], (z * Y + y) * X + x, what); } vf::event("cells_reread", X * Y * Z); };
        auto alive = [&] { if (OBJS) { std::size_t n = dreg().live.size() - objs0; vf::check_lazy(n == std::size_t(X * Y * Z * OBJS), K + ":lifetimes", [&] { return VF_STR(n << " members alive on the device instead of " << X * Y * Z * OBJS << ": " << log); }); } };
        vf::check(vf_cuda::find(g->data(), g->byte_size()) != 0, K + ":storage", "storage is not in device memory"); map(); alive(); all("initial");
        for (int s = 0; s < steps; ++s) {
            long x = r.below(X), y = r.below(Y), z = r.below(Z), n = 1 + r.below(X - x), i0 = (z * Y + y) * X + x; if (r.chance(1, 6)) { x = 0; n = X; i0 = (z * Y + y) * X; }
            unsigned op = unsigned(r.below(11)); std::set<int> touched; raw(before); log = VF_STR(K << " " << X << "x" << Y << "x" << Z << " op" << op << "@" << x << "," << y << "," << z << "+" << n); vf::step(log); unsigned long launches = emu().launches;
            switch (op) {
            case 0: { Buf<CELL> c(1, r); c[0] = Desc<CELL>::random(r); CELL keep = c[0]; g->set(x, y, z, c[0]); model[i0] = keep; touched.insert(i0 + 1); vf::event("set"); break; }
            case 1: { Buf<CELL> c(n, r); for (long i = 0; i < n; ++i) { c[i] = Desc<CELL>::random(r); model[i0 + i] = c[i]; touched.insert(i0 + i + 1); } g->set(x, y, z, c.p, n); for (long i = 0; i < n; ++i) cmp(c[i], i0 + i, "source-modified"); vf::event("set_run"); break; }
            case 2: { Buf<CELL> c(1, r); c[0] = Desc<CELL>::random(r); g->broadcast(x, y, z, c[0], n); for (long i = 0; i < n; ++i) { model[i0 + i] = c[0]; touched.insert(i0 + i + 1); } vf::event("broadcast"); break; }
            case 3: { cmp(cg->get(x, y, z), i0, "get"); vf::event("get"); break; }
            case 4: { Buf<CELL> c(n + 2, r); CELL fence = Desc<CELL>::random(r); for (long i = 0; i < n + 2; ++i) c[i] = fence; cg->get(x, y, z, c.p + 1, n); for (long i = 0; i < n; ++i) cmp(c[i + 1], i0 + i, "get-run"); vf::check(!Desc<CELL>::diff(c[0], fence) && !Desc<CELL>::diff(c[n + 1], fence), K + ":get-run-bounds", "run read wrote outside of its target"); vf::event("get_run"); break; }
            case 5: case 6: { // raw load/save, single run or list of runs
                std::vector<Streak> runs; std::vector<char> used(X * Y * Z, 0); long total = 0; int want = op == 5 ? 1 : 1 + int(r.below(4));
                for (int k = 0; k < want; ++k) { Streak t; t.origin[0] = int(k ? r.below(X) : x); t.origin[1] = int(k ? r.below(Y) : y); t.origin[2] = int(k ? r.below(Z) : z); t.n = k ? 1 + r.below(X - t.origin[0]) : n; long b = (long(t.origin[2]) * Y + t.origin[1]) * X + t.origin[0]; bool clash = false; for (long i = 0; i < t.n; ++i) clash |= used[b + i]; if (clash) continue; for (long i = 0; i < t.n; ++i) used[b + i] = 1; runs.push_back(t); total += t.n; }
                std::size_t bytes = total * Desc<CELL>::SIZE; Buf<char> block(bytes, r); std::vector<char> expect(bytes); std::memset(block.p, 0x6B, bytes);
                { std::size_t i = 0; for (auto& t : runs) for (long j = 0; j < t.n; ++j) put(expect.data(), total, i++, model[(long(t.origin[2]) * Y + t.origin[1]) * X + t.origin[0] + j]); }
                if (op == 5) cg->save(x, y, z, block.p, total); else if (r.chance(1, 2)) { std::list<Streak> l(runs.begin(), runs.end()); cg->save(l.begin(), l.end(), block.p, total); } else cg->save(runs.begin(), runs.end(), block.p, total);
                vf::check_lazy(!std::memcmp(block.p, expect.data(), bytes), K + ":save", [&] { return VF_STR("saved block differs: " << log); }); raw(now); vf::check(now == before, K + ":save-modifies", "save modified the grid");
                { std::size_t i = 0; for (auto& t : runs) for (long j = 0; j < t.n; ++j) { long c = (long(t.origin[2]) * Y + t.origin[1]) * X + t.origin[0] + j; model[c] = Desc<CELL>::random(r); touched.insert(c + 1); put(block.p, total, i++, model[c]); } }
                if (op == 5) g->load(x, y, z, block.p, total); else if (r.chance(1, 2)) { std::list<Streak> l(runs.begin(), runs.end()); g->load(l.begin(), l.end(), block.p, total); } else g->load(runs.begin(), runs.end(), block.p, total);
                vf::event(op == 5 ? "raw_single" : "raw_list"); break; }
            case 7: { // replaced by other dimensions
                long nx = 1 + r.below(mx), ny = 1 + r.below(my), nz = 1 + r.below(mz); bool same = nx == X && ny == Y && nz == Z; g->resize(nx, ny, nz); X = nx; Y = ny; Z = nz; vf::check(long(g->dim_x()) == X && long(g->dim_y()) == Y && long(g->dim_z()) == Z, K + ":dims", "dimensions after resize"); if (!same) model.assign(X * Y * Z, Desc<CELL>::zero()); log += VF_STR(" resized to " << X << "x" << Y << "x" << Z); map(); alive(); all("resized"); raw(before); vf::event("resize"); break; }
            case 8: { // storage transferred as a whole to a host grid and back
                soa_grid<CELL> h(X, Y, Z); if (!vf::check(h.byte_size() == g->byte_size(), K + ":byte-size", "host and device grid of the same dimensions differ in size")) break;
                cudaMemcpy(h.data(), cg->data(), h.byte_size(), cudaMemcpyDeviceToHost); for (long i = 0; i < X * Y * Z; ++i) cmp(h.get(i % X, i / X % Y, i / X / Y), i, "transfer");
                CELL c = Desc<CELL>::random(r); h.set(x, y, z, c); model[i0] = c; touched.insert(i0 + 1); cudaMemcpy(g->data(), h.data(), h.byte_size(), cudaMemcpyHostToDevice); vf::event("transfer"); break; }
            case 9: { // exchanged with another grid
                long nx = 1 + r.below(mx), ny = 1 + r.below(my), nz = 1 + r.below(mz); Grid o(nx, ny, nz); CELL c = Desc<CELL>::random(r); o.broadcast(0, 0, 0, c, nx); o.swap(*g); X = nx; Y = ny; Z = nz; model.assign(X * Y * Z, Desc<CELL>::zero()); for (long i = 0; i < nx; ++i) model[i] = c; log += " swapped"; map(); all("swapped"); raw(before); vf::event("swap"); break; }
            case 10: { // user kernel from one grid into another
                Grid o(X, Y, Z); shift_functor<CELL> f{o.data(), X, Y, Z}; g->callback(f); std::vector<CELL> row(X); for (long i = 0; i < X * Y * Z; ++i) { if (i % X == 0) o.get(0, i / X % Y, i / X / Y, row.data(), X); const char* m = Desc<CELL>::diff(row[i % X], model[i - i % X + (i % X + 1) % X]); vf::check_lazy(!m, K + ":kernel", [&] { return VF_STR("member " << m << " of cell " << i << " wrong after user kernel: " << log); }); } vf::event("user_kernel"); break; }
            }
            raw(now); long bad = -1; for (std::size_t i = 0; i < now.size() && bad < 0; ++i) if (now[i] != before[i] && owner[i] && !touched.count(owner[i])) bad = long(i);
            vf::check_lazy(bad < 0, K + ":isolation", [&] { return VF_STR("byte " << bad << " of the device storage (cell " << owner[bad] - 1 << ") changed by an operation on other cells: " << log); }); alive();
            vf::event("launches", emu().launches - launches); vf::distinct(vf::mix(vf::mix(vf::hash_str(K), op), vf::mix(vf::mix(vf::mix(X, Y), Z), vf::mix(vf::mix(x, y), vf::mix(z, n)))));
            vf::check(cudaGetLastError() == cudaSuccess, K + ":error", "device error reported");
        }
        all("final"); g->~Grid();
    }
    std::size_t left = emu().live.size(); vf::check(left == blocks0, K + ":leak", VF_STR(left - blocks0 << " device allocations left over")); vf::check(dreg().live.size() == objs0, K + ":lifetimes", VF_STR(dreg().live.size() - objs0 << " members on the device never destroyed")); if (dreg().live.size() != objs0) dreg().live.clear();
}
// ---- cuda_array against std::vector --------------------------------------------------------
template<class T> T val(vf::Rng& r) { return rnd<T>(r); }
struct Pod { short a; double b; bool operator==(const Pod& o) const { return a == o.a && std::memcmp(&b, &o.b, 8) == 0; } };
template<> Pod val<Pod>(vf::Rng& r) { Pod p; std::memset((void*)&p, 0, sizeof p); p.a = short(r.next()); p.b = rnd<double>(r); return p; }
template<class T> void arrays(vf::Rng& r, const char* tn) {
    typedef cuda_array<T> A; const std::string K = std::string("array:") + tn; vf_cuda::host_reset(); emu().rng = vf::Rng(r.next()); std::size_t blocks0 = emu().live.size();
    { std::vector<A*> as; std::vector<std::vector<T> > ms; std::vector<std::vector<char> > known; std::string log;
      auto make = [&](A* a, const std::vector<T>& m, bool k) { as.push_back(a); ms.push_back(m); known.push_back(std::vector<char>(m.size(), k)); };
      auto mem = [&] { return vf_cuda::host(sizeof(A)); };
      auto check = [&](std::size_t i, const char* what) {
          A& a = *as[i]; const A& ca = a; std::vector<T>& m = ms[i]; if (!vf::check(a.size() == m.size() && a.capacity() >= m.size() && a.byte_size() == m.size() * sizeof(T), K + ":size", VF_STR("size " << a.size() << " instead of " << m.size() << ": " << log))) return;
          vf::check(m.empty() || vf_cuda::find(ca.data(), a.capacity() * sizeof(T)), K + ":storage", "capacity not backed by device memory");
          Buf<T> out(m.size() + 1, r); T fence = val<T>(r); out[m.size()] = fence; ca.save(out.p); for (std::size_t j = 0; j < m.size(); ++j) if (known[i][j]) vf::check_lazy(same(out[j], m[j]), K + ":" + what, [&] { return VF_STR("element " << j << " of " << m.size() << " wrong: " << log); }); vf::check(same(out[m.size()], fence), K + ":save-bounds", "save wrote behind its target"); vf::event("elements_reread", m.size()); };
      auto len = [&] { return r.chance(1, 8) ? 1000 + r.below(1100) : r.chance(1, 3) ? 1 + r.below(4) : 1 + r.below(90); };
      for (int s = 0; s < 30; ++s) {
          unsigned op = as.empty() ? r.below(5) : unsigned(r.below(14)); std::size_t i = as.empty() ? 0 : r.below(as.size()), n = len(); log = VF_STR(K << " op" << op << " n" << n); vf::step(log);
          switch (op) {
          case 0: { T v = val<T>(r); std::vector<T> m(n, v); make(new (mem()) A(n, v), m, true); check(as.size() - 1, "fill"); vf::event("fill_construct"); break; }
          case 1: { std::vector<T> m; for (std::size_t j = 0; j < n; ++j) m.push_back(val<T>(r)); make(new (mem()) A(m), m, true); check(as.size() - 1, "from-vector"); vf::event("from_vector"); break; }
          case 2: { Buf<T> b(n, r); std::vector<T> m; for (std::size_t j = 0; j < n; ++j) { m.push_back(val<T>(r)); b[j] = m[j]; } make(new (mem()) A(b.p, n), m, true); check(as.size() - 1, "from-pointer"); vf::event("from_pointer"); break; }
          case 3: { make(new (mem()) A(n), std::vector<T>(n), false); check(as.size() - 1, "sized"); vf::event("sized"); break; }
          case 4: { make(new (mem()) A(), std::vector<T>(), false); check(as.size() - 1, "empty"); vf::event("empty"); break; }
          case 5: { auto k = known[i]; make(new (mem()) A(*(const A*)as[i]), std::vector<T>(ms[i]), true); known.back() = k; check(as.size() - 1, "copy"); check(i, "copy-source"); vf::check(ms[i].empty() || as[i]->data() != as.back()->data(), K + ":shared", "copy shares storage"); vf::event("copy"); break; }
          case 6: { std::size_t j = r.below(as.size()); *as[j] = *as[i]; ms[j] = std::vector<T>(ms[i]); known[j] = std::vector<char>(known[i]); check(j, "assign"); check(i, "assign-source"); if (i != j) vf::check(ms[i].empty() || as[i]->data() != as[j]->data(), K + ":shared", "assigned array shares storage"); vf::event("assign"); break; }
          case 7: case 8: { T v = val<T>(r); Buf<T> hv(1, r); hv[0] = v; std::size_t old = ms[i].size(); as[i]->resize(n, hv[0]); ms[i].resize(n, v); known[i].resize(n, 1); check(i, "resize-fill"); vf::event(n > old ? "grow_fill" : "shrink"); break; }
          case 9: { as[i]->resize(n); ms[i].resize(n); known[i].resize(n, 0); check(i, "resize"); vf::event("resize"); break; }
          case 10: { std::size_t c = n; as[i]->reserve(c); vf::check(as[i]->capacity() >= c, K + ":reserve", "capacity after reserve"); check(i, "reserve"); vf::event("reserve"); break; }
          case 11: { Buf<T> b(ms[i].size(), r); for (std::size_t j = 0; j < ms[i].size(); ++j) { b[j] = val<T>(r); ms[i][j] = b[j]; known[i][j] = 1; } as[i]->load(b.p); check(i, "load"); vf::event("load"); break; }
          case 12: { as[i]->~A(); as.erase(as.begin() + i); ms.erase(ms.begin() + i); known.erase(known.begin() + i); vf::event("destroy"); break; }
          case 13: { std::size_t c = ms[i].size(); vf_cuda::launch(vf_cuda::config(dim3(unsigned(c / 32 + 1)), dim3(32)), std::make_tuple(as[i]->data(), c), [](T* p, std::size_t c) { std::size_t k = blockDim.x * blockIdx.x + threadIdx.x; if (k + 1 < c && k % 2 == 0) std::swap(p[k], p[k + 1]); }); for (std::size_t j = 0; j + 1 < c; j += 2) { std::swap(ms[i][j], ms[i][j + 1]); std::swap(known[i][j], known[i][j + 1]); } check(i, "kernel"); vf::event("array_kernel"); break; }
          }
          for (std::size_t j = 0; j < as.size(); ++j) if (r.chance(1, 4)) check(j, "bystander");
          vf::distinct(vf::mix(vf::mix(vf::hash_str(K), op), vf::mix(n, as.empty() || i >= ms.size() ? 0 : ms[i].size())));
      }
      for (A* a : as) a->~A(); }
    std::size_t left = emu().live.size(); vf::check(left == blocks0, K + ":leak", VF_STR(left - blocks0 << " device allocations left over"));
}
// ---- fixed-capacity arrays in device memory ----------------------------------------------------
typedef soa_array<Arr, 37> DArr;
static void dup_kernel(DArr* a, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { Arr c; (*a)[int(i)] >> c; c.k[1] += 5; (*a) << c; } }
static void mod_kernel(DArr* a) { long i = blockDim.x * blockIdx.x + threadIdx.x; if (i >= long(a->size())) return; (*a)[int(i)].k()[0] += int(i); (*a)[int(i)].w()[4] = (*a)[int(i)].x(); (*a)[int(i)].t() = short(i); }
static void init_array(DArr* a, std::size_t n, Arr v) { new (a) DArr(n, v); }
static void copy_array(DArr* a, const DArr* b) { new (a) DArr(*b); }
static void assign_array(DArr* a, const DArr* b) { *a = *b; }
static void pop_array(DArr* a, int n) { while (n--) a->pop_back(); }
static void device_soa_arrays(vf::Rng& r) {
    vf_cuda::host_reset(); emu().rng = vf::Rng(r.next()); DArr* dev = 0; cudaMalloc(&dev, sizeof(DArr)); DArr* dev2 = 0; cudaMalloc(&dev2, sizeof(DArr)); std::vector<Arr> m; DArr* host = new (vf_cuda::host(sizeof(DArr))) DArr();
    auto one = [](auto f, auto... a) { vf_cuda::launch(vf_cuda::config(dim3(1), dim3(1)), std::make_tuple(a...), [&](auto&... b) { f(b...); }); };
    std::size_t n = 1 + r.below(18); for (std::size_t i = 0; i < n; ++i) { m.push_back(Desc<Arr>::random(r)); m[i].k[0] /= 2; m[i].k[1] /= 2; *host << m[i]; } std::string log; cudaMemcpy(dev, host, sizeof(DArr), cudaMemcpyHostToDevice); std::vector<int> ops;
    for (int s = 0; s < 12; ++s) {
        int op = int(r.below(6)); log += VF_STR(" " << op); vf::step("soa_array in device memory:" + log);
        switch (op) {
        case 0: if (2 * m.size() > 37) continue; one(dup_kernel, dev, m.size()); { std::size_t k = m.size(); for (std::size_t i = 0; i < k; ++i) { Arr c = m[i]; c.k[1] += 5; m.push_back(c); } } break;
        case 1: vf_cuda::launch(vf_cuda::config(dim3(3), dim3(16)), std::make_tuple(dev), [](DArr* a) { mod_kernel(a); }); for (std::size_t i = 0; i < m.size(); ++i) { m[i].k[0] += int(i); m[i].w[4] = m[i].x; m[i].t = short(i); } break;
        case 2: { std::size_t k = r.below(38); Arr v = Desc<Arr>::random(r); v.k[0] /= 2; v.k[1] /= 2; one(init_array, dev, k, v); m.assign(k, v); break; }
        case 3: one(copy_array, dev2, (const DArr*)dev); std::swap(dev, dev2); break;
        case 4: one(copy_array, dev2, (const DArr*)dev); one(assign_array, dev2, (const DArr*)dev); std::swap(dev, dev2); break;
        case 5: { int k = int(r.below(m.size() + 1)); one(pop_array, dev, k); m.resize(m.size() - k); break; }
        }
        cudaMemcpy(host, dev, sizeof(DArr), cudaMemcpyDeviceToHost); if (!vf::check(host->size() == m.size(), "device-array:size", "size after" + log)) break;
        for (std::size_t i = 0; i < m.size(); ++i) { Arr c; (*host)[int(i)] >> c; const char* d = Desc<Arr>::diff(c, m[i]); vf::check_lazy(!d, "device-array:element", [&] { return VF_STR("member " << d << " of element " << i << " after" << log); }); }
        vf::event("device_array_ops"); vf::event("elements_reread", m.size()); vf::distinct(vf::mix(vf::hash_str("device-array"), vf::mix(op, m.size())));
    }
    cudaFree(dev); cudaFree(dev2); host->~DArr();
}
// ---- allocator -------------------------------------------------------------------------------
static void allocator(vf::Rng& r) {
    std::size_t before = emu().live.size(); cuda_allocator<double> d; cuda_allocator<char> c; cuda_allocator<Pod> p; struct E { int t; void* p; std::size_t n; }; std::vector<E> es;
    for (int i = 0; i < 40; ++i) { if (es.empty() || r.chance(3, 5)) { E e; e.t = int(r.below(3)); e.n = 1 + r.below(3000); e.p = e.t == 0 ? (void*)d.allocate(e.n) : e.t == 1 ? (void*)c.allocate(e.n) : (void*)p.allocate(e.n); vf::check(vf_cuda::find(e.p, e.n * (e.t == 0 ? 8 : e.t == 1 ? 1 : sizeof(Pod))) != 0, "allocator:size", VF_STR("block of " << e.n << " elements too small")); es.push_back(e); }
        else { std::size_t k = r.below(es.size()); E e = es[k]; es.erase(es.begin() + k); if (e.t == 0) d.deallocate((double*)e.p, e.n); else if (e.t == 1) c.deallocate((char*)e.p, e.n); else p.deallocate((Pod*)e.p, e.n); } vf::event("allocations"); }
    for (E& e : es) { if (e.t == 0) d.deallocate((double*)e.p, e.n); else if (e.t == 1) c.deallocate((char*)e.p, e.n); else p.deallocate((Pod*)e.p, e.n); } double* z = d.allocate(0); vf::check(z == 0, "allocator:null", "empty allocation"); d.deallocate(z, 0); std::size_t after = emu().live.size(); vf::check(after == before, "allocator:leak", "device memory not released");
}
#ifndef PART
#define PART 9
#endif
VF_MAIN({
    vf::st().max_viol = 12;
#if PART == 0 || PART == 9
    vf::scenario("grid-mix", vf::scaled(60), [](vf::Rng& r) { history<Mix>(r, 40, 10, 7, 18); });
#endif
#if PART == 1 || PART == 9
    vf::scenario("grid-arr", vf::scaled(40), [](vf::Rng& r) { history<Arr>(r, 24, 12, 9, 14); });
    vf::scenario("grid-two", vf::scaled(40), [](vf::Rng& r) { history<Two>(r, 40, 40, 1, 14); });
#endif
#if PART == 2 || PART == 9
    vf::scenario("grid-one", vf::scaled(30), [](vf::Rng& r) { history<One>(r, 20, 20, 20, 10); });
    vf::scenario("grid-long", vf::scaled(12), [](vf::Rng& r) { history<Long>(r, 2600, 1, 1, 12); });
    vf::scenario("grid-deep", vf::scaled(6), [](vf::Rng& r) { history<Tall>(r, 6, 4, 300, 4); });
    vf::scenario("grid-high", vf::scaled(6), [](vf::Rng& r) { history<Tall>(r, 6, 520, 3, 4); });
    vf::scenario("grid-broad", vf::scaled(6), [](vf::Rng& r) { history<Tall>(r, 150, 15, 3, 5); });
    vf::scenario("grid-life", vf::scaled(40), [](vf::Rng& r) { history<Dev>(r, 40, 10, 7, 14); });
#endif
#if PART == 4 || PART == 9
    // every length of each axis
    vf::scenario("grid-sweep", 150 + 140 + 140, [](vf::Rng& r) {
        long i = long(vf::st().case_index), d[3] = {r.range(1, 2), r.range(1, 2), r.range(1, 2)};
        if (i < 150) d[0] = i + 1; else if (i < 290) d[1] = i - 149; else d[2] = i - 289;
        history<Tall>(r, 6, 4, 3, 3, d); vf::event("swept_lengths");
    });
#endif
#if PART == 3 || PART == 9
    vf::scenario("array-double", vf::scaled(60), [](vf::Rng& r) { arrays<double>(r, "double"); });
    vf::scenario("array-char", vf::scaled(60), [](vf::Rng& r) { arrays<char>(r, "char"); });
    vf::scenario("array-pod", vf::scaled(60), [](vf::Rng& r) { arrays<Pod>(r, "pod"); });
    vf::scenario("device-soa-array", vf::scaled(80), [](vf::Rng& r) { device_soa_arrays(r); });
    vf::scenario("allocator", vf::scaled(20), [](vf::Rng& r) { allocator(r); });
#endif
    vf::event("threads_emulated", emu().threads); vf::event("kernel_launches", emu().launches); vf::event("host_to_device", emu().copies[1]); vf::event("device_to_host", emu().copies[2]); vf::event("device_to_device", emu().copies[3]); vf::event("members_constructed_on_device", dreg().made);
})
