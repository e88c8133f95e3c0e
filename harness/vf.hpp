// Common monitoring infrastructure: seeded case driver, event counters,
// violation log, report file. Uses nothing from the library under test.
#ifndef VF_HPP
#define VF_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <signal.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#ifndef VF_SAN
#define VF_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif
#endif

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo + 1))); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull ^ (h >> 29); }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

struct Violation { std::string key, msg, where; };

struct State {
    uint64_t seed = 1, cases = 100, only_set = 0, only = 0, max_viol = 8;
    std::string out, tier = "quick", name;
    std::string scenario;  // label of the running scenario
    uint64_t case_index = 0, case_seed = 0;
    std::string step;      // label of the running step, for crash reports
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::set<std::string> seen_keys;
    std::mutex mtx;
    bool report_written = false;
};
inline State& st() { static State s; return s; }

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline void write_report(bool complete) {
    State& s = st();
    if (s.out.empty()) return;
    std::ofstream f(s.out.c_str());
    f << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << s.evaluations
      << ",\"distinct\":" << s.distinct.size() << ",\"events\":{";
    bool first = true;
    for (auto& e : s.events) { f << (first ? "" : ",") << "\"" << jesc(e.first) << "\":" << e.second; first = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < s.samples.size(); ++i) f << (i ? "," : "") << "\"" << jesc(s.samples[i]) << "\"";
    f << "],\"violations\":[";
    for (size_t i = 0; i < s.violations.size(); ++i)
        f << (i ? "," : "") << "{\"key\":\"" << jesc(s.violations[i].key) << "\",\"msg\":\"" << jesc(s.violations[i].msg)
          << "\",\"where\":\"" << jesc(s.violations[i].where) << "\"}";
    f << "],\"at\":\"" << jesc(s.scenario) << " case=" << s.case_index << " step=" << jesc(s.step) << "\"}\n";
    f.close();
    s.report_written = true;
}

inline void on_death() {
    State& s = st();
    std::fprintf(stderr, "VF-AT scenario=%s case=%llu step=%s\n", s.scenario.c_str(), (unsigned long long)s.case_index, s.step.c_str());
}

// allocations made while quiet() > 0 are bookkeeping of the monitor itself
inline int& quiet() { static int q = 0; return q; }
struct Quiet { Quiet() { ++quiet(); } ~Quiet() { --quiet(); } };

inline void event(const std::string& n, uint64_t k = 1) { Quiet q; st().events[n] += k; }
inline void sample(const std::string& t) { Quiet q; if (st().samples.size() < 12) st().samples.push_back(t); }
inline void distinct(uint64_t h) { Quiet q; if (st().distinct.size() < 4000000) st().distinct.insert(h); }
inline void step(const std::string& t) { Quiet q; st().step = t; }

// key: stable identification of what failed; at most one report per key
inline void violation(const std::string& key, const std::string& msg) {
    State& s = st();
    std::lock_guard<std::mutex> g(s.mtx);
    Quiet q;
    s.events["violations_raised"]++;
    if (!s.seen_keys.insert(key).second) return;
    std::ostringstream w;
    w << "scenario=" << s.scenario << " case=" << s.case_index << " step=" << s.step;
    s.violations.push_back(Violation{key, msg, w.str()});
    std::fprintf(stderr, "VF-VIOLATION key=%s %s | %s\n", key.c_str(), w.str().c_str(), msg.c_str());
    if (s.violations.size() >= s.max_viol) { write_report(false); std::_Exit(3); }
}

// a check = one evaluation of the oracle
inline bool check(bool ok, const std::string& key, const std::string& msg) {
    ++st().evaluations;
    if (!ok) violation(key, msg);
    return ok;
}
template<class F> inline bool check_lazy(bool ok, const std::string& key, F msg) {
    ++st().evaluations;
    if (!ok) violation(key, msg());
    return ok;
}

#define VF_STR(...) ([&]{ std::ostringstream _o; _o << __VA_ARGS__; return _o.str(); }())

inline void parse(int argc, char** argv) {
    State& s = st();
    s.name = argv[0];
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") s.seed = std::strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") s.cases = std::strtoull(v.c_str(), 0, 10);
        else if (a == "--only") { s.only_set = 1; s.only = std::strtoull(v.c_str(), 0, 10); }
        else if (a == "--out") s.out = v;
        else if (a == "--tier") s.tier = v;
        else if (a == "--scenario") s.scenario = v;
    }
#ifdef VF_SAN
    __sanitizer_set_death_callback(on_death);
#else
    // no sanitizer runtime to report where a fault happened
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) { struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_flags = int(SA_RESETHAND); sa.sa_handler = [](int) { on_death(); }; sigaction(sig, &sa, 0); }
#endif
    std::set_terminate([] {
        std::string what = "unknown";
        try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
        catch (std::exception& e) { what = e.what(); } catch (...) {}
        std::fprintf(stderr, "VF-TERMINATE uncaught: %s\n", what.c_str());
        on_death();
        std::abort();
    });
}

inline std::string& scenario_filter() { static std::string s; return s; }

// Runs `fn(rng)` for `n` cases; every case is independently reproducible by
// (seed, scenario, case).
template<class F>
void scenario(const std::string& name, uint64_t n, F fn) {
    State& s = st();
    if (!scenario_filter().empty() && scenario_filter() != name) return;
    s.scenario = name;
    for (uint64_t i = 0; i < n; ++i) {
        if (s.only_set && i != s.only) continue;
        s.case_index = i;
        s.step = "";
        s.case_seed = mix(mix(s.seed, hash_str(name)), i);
        Rng r(s.case_seed);
        fn(r);
        s.events["cases:" + name]++;
    }
}

inline int finish() {
    State& s = st();
    s.step = "finished";
    write_report(true);
    return s.violations.empty() ? 0 : 3;
}

inline bool thorough() { return st().tier == "thorough"; }
// VF_SCALE: more cases in builds that are fast
#ifndef VF_SCALE
#define VF_SCALE 1
#endif
inline uint64_t scaled(uint64_t n) { return VF_SCALE * (thorough() ? n * 12 : n); }

} // namespace vf

#define VF_MAIN(...) int main(int argc, char** argv) { vf::parse(argc, argv); vf::scenario_filter() = vf::st().scenario; __VA_ARGS__; return vf::finish(); }
#endif
