// Instrumented member type: every construction, destruction, assignment and read
// is an event checked online against a registry keyed by address.
#ifndef VF_LIFETIME_HPP
#define VF_LIFETIME_HPP
#include "vf.hpp"
#include <unordered_map>
namespace life {
struct Reg {
    std::unordered_map<const void*, long> live;
    unsigned long constructed = 0, destroyed = 0, assigned = 0, read = 0;
    long throw_at = -1, copies = 0; bool fired = false; // member-copy failure injection
    std::string ctx = "none";
};
inline Reg& reg() { static Reg r; return r; }
struct copy_failure : std::runtime_error { copy_failure() : std::runtime_error("injected member copy failure") {} };
inline void maybe_throw() { Reg& g = reg(); if (g.throw_at >= 0 && g.copies++ == g.throw_at) { g.throw_at = -1; g.fired = true; throw copy_failure(); } }
inline void bad(const char* what, const void* p) { vf::violation(std::string("lifetime:") + reg().ctx + ":" + what, VF_STR(what << " at " << p << " (" << vf::st().step << ")")); }

// Obj refers to its own address and owns heap memory
template<int TAG> struct Obj {
    long value; const void* self; int* heap;
    void born() { Reg& g = reg(); ++g.constructed; if (!g.live.insert(std::make_pair((const void*)this, TAG)).second) bad("object constructed over a live object", this); self = this; heap = new int(TAG); }
    bool ok(const char* op) const {
        Reg& g = reg();
        auto it = g.live.find(this);
        if (it == g.live.end()) { bad((std::string(op) + " an object that is not alive").c_str(), this); return false; }
        if (it->second != TAG) { bad((std::string(op) + " an object of another member").c_str(), this); return false; }
        if (self != this || *heap != TAG) { bad((std::string(op) + " an object that was relocated bytewise").c_str(), this); return false; }
        return true;
    }
    Obj() : value(0) { born(); }
    Obj(long v) : value(v) { born(); }
    Obj(const Obj& o) : value(0) { maybe_throw(); if (o.ok("copying from")) value = o.value; born(); }
    Obj& operator=(const Obj& o) { ++reg().assigned; maybe_throw(); bool a = o.ok("assigning from"), b = ok("assigning to"); if (a && b) value = o.value; return *this; }
    ~Obj() { Reg& g = reg(); if (!ok("destroying")) return; ++g.destroyed; g.live.erase(this); delete heap; self = 0; value = -77; }
    long get() const { ++reg().read; return ok("reading") ? value : -1; }
};
inline bool alive(const void* p) { return reg().live.count(p) != 0; }
inline std::size_t live_in(const char* b, std::size_t n) { std::size_t k = 0; for (auto& e : reg().live) if ((const char*)e.first >= b && (const char*)e.first < b + n) ++k; return k; }
} // namespace life
#endif
