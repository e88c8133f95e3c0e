// C26: list operations of the preprocessor, for lists of every length. What they
// expand to is recorded as text, so that an expansion which went wrong can be
// judged even though it would not compile.
#include "vf.hpp"
#include <cctype>
#ifdef VF_WHOLE
#include <libflatarray/flat_array.hpp>
#else
#include <libflatarray/preprocessor.hpp>
#endif
static long N; static const long* V;
static std::string at() { return VF_STR("list of " << N << " elements"); }
static std::string strip(const std::string& s) { std::string r; for (char c : s) if (!std::isspace((unsigned char)c)) r += c; return r; }
// value of an integer expression of sums, differences and parentheses
struct Value {
    const char* p; bool ok = true;
    long atom() { if (*p == '(') { ++p; long v = sum(); if (*p == ')') ++p; else ok = false; return v; } if (*p == '-') { ++p; return -atom(); } if (!std::isdigit((unsigned char)*p)) { ok = false; return 0; } char* e; long v = std::strtol(p, &e, 10); p = e; return v; }
    long sum() { long v = atom(); while (ok && (*p == '+' || *p == '-')) { char c = *p++; long w = atom(); v = c == '+' ? v + w : v - w; } return v; }
};
static bool is(const std::string& text, long want) { std::string t = strip(text); Value v{t.c_str()}; long n = v.sum(); return v.ok && !*v.p && n == want; }
static void begin(long n, const long* v) { N = n; V = v; vf::step(at()); vf::event("lists"); vf::distinct(vf::mix(1, n)); }
static void size(const char* s) { vf::check_lazy(is(s, N), "size", [&] { return VF_STR("length " << s << " of a " << at()); }); vf::event("sizes"); }
static void deep_size(const char* s) { vf::check_lazy(is(s, N), "size-nested", [&] { return VF_STR("length " << s << " of a nested " << at()); }); }
static void rest_size(const char* s) { vf::check_lazy(is(s, N ? N - 1 : 0), "dequeue-size", [&] { return VF_STR("length " << s << " after removing the first of a " << at()); }); vf::event("dequeues"); }
static void elem(long i, const char* s) { vf::check_lazy(is(s, V[i]), "elem", [&] { return VF_STR("element " << i << " of a " << at() << " is " << s << " instead of " << V[i]); }); vf::event("elements"); vf::distinct(vf::mix(vf::mix(2, N), i)); }
static void deep_elem(long i, const char* x, const char* s) { vf::check_lazy(is(x, V[i]) && strip(s) == VF_STR("T" << i), "elem-nested", [&] { return VF_STR("element " << i << " of a nested " << at() << " is " << s << "," << x); }); vf::event("nested_elements"); }
static void rest_elem(long i, const char* s) { vf::check_lazy(is(s, V[i + 1]), "dequeue-elem", [&] { return VF_STR("element " << i << " after removing the first of a " << at() << " is " << s); }); }
// the trace of a loop over a list: each element once, in order, with its index and the argument
static void loop(bool rest, long arg, const char* text) {
    std::string t = strip(text); long seen = 0; std::size_t p = 0;
    while (p < t.size()) {
        std::size_t e = t.find(';', p); std::string s = t.substr(p, e == std::string::npos ? e : e - p), f[3]; p = e == std::string::npos ? t.size() : e + 1; int k = 0;
        bool ok = s.compare(0, 5, "step{") == 0 && s.back() == '}';
        if (ok) for (char c : s.substr(5, s.size() - 6)) { if (c == ',') { if (++k > 2) break; } else f[k] += c; }
        vf::check_lazy(ok && k == 2 && seen + rest < N && is(f[0], seen) && is(f[1], arg) && is(f[2], V[seen + rest]), "for-each", [&] { return VF_STR("step " << seen << " over a " << at() << (rest ? " without its first" : "") << " with argument " << arg << " is " << s); });
        ++seen; vf::event("for_each_steps"); if (seen > N) break;
    }
    vf::check_lazy(seen == N - rest, "for-each-count", [&] { return VF_STR(seen << " steps over a " << at() << (rest ? " without its first" : "")); }); vf::event("for_each_loops");
}
static void shorter(long l, const char* r, const char* d) { int e = N < l ? 1 : 2; vf::check_lazy(is(r, e) && is(d, e), "if-shorter", [&] { return VF_STR("a " << at() << (e == 1 ? " is" : " is not") << " shorter than " << l << ", but alternative " << r << "/" << d << " was chosen"); }); vf::event("if_shorter"); vf::distinct(vf::mix(vf::mix(3, N), l)); }
#define VF_STRINGIFY_I(...) #__VA_ARGS__
#define VF_STRINGIFY(...) VF_STRINGIFY_I(__VA_ARGS__)
#define VF_EACH(INDEX, A, ELEMENT) step{INDEX, A, ELEMENT};
#define VF_DEEP_EACH(INDEX, A, ELEMENT) step{INDEX, A, LIBFLATARRAY_ELEM(1, ELEMENT)};
#define VF_FIRST(L) (L - L + 1)
#define VF_SECOND(L) (1 + 1)
#include "c26_lists.hpp"
VF_MAIN({
    vf::scenario("lists", 1, [](vf::Rng&) { VF_ALL_LISTS });
    vf::sample("size, elements, dequeue, for-each and if-shorter of lists of 0 to 51 elements");
})
