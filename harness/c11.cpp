// C11: aligned_allocator. operator new/delete are replaced by an arena that
// decides where each chunk lies (any legal, i.e. 16 byte aligned, residue modulo a
// page), fences it with canaries / poisoned memory, and keeps a ledger of releases.
#include "vf.hpp"
#include <new>
#include <sys/mman.h>
#include <libflatarray/aligned_allocator.hpp>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
using namespace LibFlatArray;

struct Chunk { char* base; std::size_t map; char* p; std::size_t n; };
// plain array: must not allocate itself
static Chunk chunks[4096]; static int n_chunks = 0;
static bool arena_on = false, arena_fail = false; static long residue = 0; static int arena_fails = 0;
static unsigned long arena_allocs = 0, arena_frees = 0;
static const char* arena_error = 0;
static void* arena_new(std::size_t n) {
    if (arena_fail) ++arena_fails;
    if (arena_fail || n > (std::size_t(1) << 30) || n_chunks == 4096) throw std::bad_alloc();
    std::size_t map = ((n + 4 * 4096) / 4096 + 16) * 4096;
    char* b = (char*)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) throw std::bad_alloc();
    char* p = b + 4096 + residue * 16;
    std::memset(b, 0xC7, map); std::memset(p, 0xE5, n);
    Chunk c = {b, map, p, n}; chunks[n_chunks++] = c; ++arena_allocs;
    POISON(b, std::size_t(p - b)); POISON(p + n, map - std::size_t(p - b) - n);
    return p;
}
static bool arena_delete(void* q, std::size_t n, bool sized) {
    for (int i = 0; i < n_chunks; ++i) if (chunks[i].p == q) {
        Chunk c = chunks[i];
        if (sized && n != c.n) arena_error = "chunk released with a size other than the allocated one";
        UNPOISON(c.base, c.map);
        for (char* x = c.base; x < c.p; ++x) if ((unsigned char)*x != 0xC7) arena_error = "memory in front of the chunk was written";
        for (char* x = c.p + c.n; x < c.base + c.map; ++x) if ((unsigned char)*x != 0xC7) arena_error = "memory behind the chunk was written";
        munmap(c.base, c.map); chunks[i] = chunks[--n_chunks]; ++arena_frees;
        return true;
    }
    return false;
}
// heap addresses handed out outside the arena are plain malloc blocks
static void* any_new(std::size_t n) { if (arena_on) return arena_new(n); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void any_delete(void* p, std::size_t n, bool sized) {
    if (!p) return;
    if (arena_delete(p, n, sized)) return;
    if (arena_on) { arena_error = "release of an address that was never handed out (or was released before)"; return; }
    std::free(p);
}
void* operator new(std::size_t n) { return any_new(n); }
void* operator new[](std::size_t n) { return any_new(n); }
void operator delete(void* p) noexcept { any_delete(p, 0, false); }
void operator delete[](void* p) noexcept { any_delete(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { any_delete(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { any_delete(p, n, true); }
struct On { On() { arena_on = true; } ~On() { arena_on = false; } };

struct B3 { char c[3]; }; struct B24 { double d[3]; }; struct Big { char c[5000]; };
template<class T> const char* tname();
#define TN(t) template<> const char* tname<t>() { return #t; }
TN(char) TN(short) TN(int) TN(double) TN(B3) TN(B24) TN(Big)

template<class T, std::size_t AL> struct test {
    typedef aligned_allocator<T, AL> A;
    struct Blk { T* p; std::size_t n; unsigned char pat; bool arena; };
    static bool bytes_are(const Blk& b) { const unsigned char* c = (const unsigned char*)b.p; for (std::size_t i = 0; i < b.n * sizeof(T); ++i) if (c[i] != b.pat) return false; return true; }
    static std::string K() { return VF_STR(tname<T>() << "/" << AL); }
    static void history(vf::Rng& r) {
        A a, a2; std::vector<Blk> live; live.reserve(256);
        int steps = int(r.range(10, 60)); std::size_t most = 40000 / sizeof(T) + 2;
        std::string log = K();
        for (int s = 0; s < steps; ++s) {
            unsigned op = unsigned(r.below(8));
            if (op < 4 && live.size() < 60) {
                residue = long(r.below(256)); if (r.chance(1, 3)) residue = long((4096 - 16 * r.below(3)) / 16 % 256);
                std::size_t n = r.chance(1, 5) ? r.below(3) : r.chance(1, 2) ? r.below(20) : r.below(most);
                vf::step(VF_STR(K() << " allocate(" << n << ") chunk residue " << residue * 16));
                Blk b = {0, n, (unsigned char)r.next(), true};
                std::string fail; int before = n_chunks;
                try { On on; b.p = (r.chance(1, 2) ? a : a2).allocate(n); } catch (std::exception& e) { fail = e.what(); }
                vf::check(fail.empty(), K() + ":refused", "allocation that fits was refused: " + fail);
                if (!fail.empty()) continue;
                vf::check(b.p != 0, K() + ":null", "allocation returned null"); if (!b.p) continue;
                vf::check_lazy(std::size_t(b.p) % AL == 0, K() + ":alignment", [&] { return VF_STR("address " << (void*)b.p << " not aligned to " << AL << " (" << vf::st().step << ")"); });
                // inside one chunk handed out just now
                b.arena = n_chunks > before; bool inside = !b.arena; // an allocator not built on operator new is left to ASan
                for (int i = before; i < n_chunks; ++i) inside |= (char*)b.p >= chunks[i].p && (char*)(b.p) + n * sizeof(T) <= chunks[i].p + chunks[i].n;
                vf::check_lazy(inside, K() + ":extent", [&] { return VF_STR("block of " << n << " objects exceeds the heap chunk it was carved from (" << vf::st().step << ")"); });
                for (auto& o : live) vf::check(o.n == 0 || n == 0 || (char*)(o.p + o.n) <= (char*)b.p || (char*)(b.p + n) <= (char*)o.p, K() + ":overlap", "two live blocks overlap");
                if (inside) std::memset((void*)b.p, b.pat, n * sizeof(T));
                live.push_back(b); vf::event("allocate"); vf::distinct(vf::hash_str(vf::st().step));
            } else if (op < 7) {
                if (live.empty()) continue;
                std::size_t i = r.chance(1, 3) ? live.size() - 1 : r.chance(1, 2) ? 0 : r.below(live.size());
                Blk b = live[i]; live.erase(live.begin() + long(i));
                vf::step(VF_STR(K() << " deallocate(" << b.n << ")"));
                vf::check(bytes_are(b), K() + ":contents", "contents of a live block changed");
                int before = n_chunks;
                { On on; (r.chance(1, 2) ? a : a2).deallocate(b.p, b.n); }
                vf::check_lazy(n_chunks == before - int(b.arena), K() + ":not-returned", [&] { return VF_STR("deallocate returned " << before - n_chunks << " chunks to the heap"); });
                vf::event("deallocate");
            } else { { On on; a.deallocate(0, r.below(100)); } vf::event("deallocate_null"); }
            vf::check(!arena_error, K() + ":heap-protocol", arena_error ? arena_error : ""); arena_error = 0;
        }
        while (!live.empty()) { Blk b = live.back(); live.pop_back(); vf::check(bytes_are(b), K() + ":contents", "contents of a live block changed"); On on; a.deallocate(b.p, b.n); vf::event("deallocate"); }
        vf::check(!arena_error, K() + ":heap-protocol", arena_error ? arena_error : ""); arena_error = 0;
        vf::check(n_chunks == 0, K() + ":leak", "heap chunks left after all blocks were released");
        if (vf::st().case_index < 1) vf::sample(K() + VF_STR(" " << steps << " steps"));
    }
    static void refusals(vf::Rng& r) {
        A a; const std::size_t M = std::size_t(-1), S = sizeof(T);
        std::vector<std::size_t> ns = {M, M - 1, M / S, (M - AL) / S, (M - AL) / S + 1, (M - AL - 8) / S, (M - AL - 8) / S + 1, M / S - 1, M / 2 / S, M / 2 / S + 1, M / S / 2, M - AL, M - AL - 8, M - AL - 7, M - r.below(AL + 64), M / S + 1, M / S + 2, std::size_t(1) << 62, (std::size_t(1) << 63) / S};
        for (std::size_t k = 1; k < 4; ++k) if (S > 1) { ns.push_back(M / S * k + 1); ns.push_back((std::size_t(1) << 63) / S * 2 + k); }
        for (std::size_t n : ns) {
            if (n < (std::size_t(1) << 31)) continue; // wrapped in the list arithmetic
            if (n <= (std::size_t(1) << 60) / S) continue;
            vf::step(VF_STR(K() << " allocate(" << n << ")"));
            std::string what; T* p = 0;
            try { On on; p = a.allocate(n); what = "returned a block"; } catch (std::bad_alloc&) { what = "bad_alloc"; } catch (std::exception& e) { what = e.what(); }
            vf::check(what == "bad_alloc", K() + ":impossible", VF_STR("impossible request for " << n << " objects: " << what));
            if (p) { On on; n_chunks = 0; }
            vf::event("impossible_request"); vf::distinct(vf::hash_str(vf::st().step));
        }
        arena_fails = 0; arena_fail = true; std::string what; T* p = 0;
        try { On on; p = a.allocate(5); what = "returned a block"; } catch (std::bad_alloc&) { what = "bad_alloc"; }
        arena_fail = false;
        if (p && !arena_fails) { a.deallocate(p, 5); what = "bad_alloc"; }
        vf::check(what == "bad_alloc", K() + ":heap-exhausted", "heap exhaustion: " + what); vf::event("heap_exhausted");
        (void)p; arena_error = 0;
        vf::check(n_chunks == 0, K() + ":refusal-leaks", "a refused request left heap chunks behind");
    }
    // through a standard container
    static void container(vf::Rng& r) {
        residue = long(r.below(256));
        { On on; std::vector<T, A>* v = new std::vector<T, A>(); std::size_t n = r.below(3000 / sizeof(T) + 4) + 1; bool ok = true, data = true; T t; std::memset((void*)&t, 0x3C, sizeof t);
          for (std::size_t i = 0; i < n; ++i) { v->push_back(t); ok = ok && std::size_t(v->data()) % AL == 0; residue = (residue + 37) % 256; }
          for (std::size_t i = 0; i < v->size(); ++i) data = data && !std::memcmp((void*)&(*v)[i], (void*)&t, sizeof t);
          std::vector<T, A> w(*v); ok = ok && std::size_t(w.data()) % AL == 0; delete v;
          arena_on = false;
          vf::check(ok, K() + ":container-alignment", "std::vector with aligned_allocator is misaligned"); vf::check(data, K() + ":container-data", "std::vector with aligned_allocator lost data"); vf::event("container_append", n); arena_on = true; }
        vf::check(!arena_error, K() + ":heap-protocol", arena_error ? arena_error : ""); arena_error = 0;
        vf::check(n_chunks == 0, K() + ":leak", "heap chunks left after the container died");
        vf::check((std::is_same<typename A::template rebind<double>::other, aligned_allocator<double, AL> >::value), K() + ":rebind", "rebind loses the alignment");
        A x, y; vf::check(x == y && !(x != y), K() + ":equal", "allocators of one type must compare equal"); T o; vf::check(x.address(o) == &o, K() + ":address", "address()");
    }
    static void all() {
        vf::scenario(K() + ":history", vf::scaled(20), [](vf::Rng& r) { history(r); });
        vf::scenario(K() + ":refusals", 2, [](vf::Rng& r) { refusals(r); });
        vf::scenario(K() + ":container", 3, [](vf::Rng& r) { container(r); });
    }
};
template<class T> void types() { test<T, 1>::all(); test<T, 2>::all(); test<T, 4>::all(); test<T, 8>::all(); test<T, 16>::all(); test<T, 32>::all(); test<T, 64>::all(); test<T, 128>::all(); test<T, 256>::all(); test<T, 512>::all(); test<T, 1024>::all(); test<T, 2048>::all(); test<T, 4096>::all(); test<T, 8192>::all(); test<T, 65536>::all(); }
VF_MAIN({
#if PART == 0
    types<char>(); types<B3>();
#elif PART == 1
    types<short>(); types<B24>();
#elif PART == 2
    types<int>(); types<Big>();
#else
    types<double>();
#endif
})
