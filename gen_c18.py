"""Generates random cell types and their registrations for C18. The expected
metadata is computed by the generated code from plain sizeof(), independently of
the library."""
import os, random

TYPES = ["char", "signed char", "unsigned char", "bool", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "long double", "Three", "Odd", "Nested"]
ARITY = ["1", "2", "3", "5", "7", "16", "33", "K3", "K3 + 1", "2 * K3", "K3 << 1", "(K3 - 1)"]

def cell(n, rng, count, few_types, private, decoys, dup):
    """-> text of one type, its registration and its description"""
    pool = rng.sample(TYPES, few_types)
    mem = [(rng.choice(pool), "m%d" % i, rng.choice(ARITY) if rng.random() < 0.35 else None) for i in range(count)]
    extra = []
    for i in range(decoys):  # same types and arities as registered ones, and others
        t, _, a = rng.choice(mem)
        extra.append((t, "decoy%d" % i, rng.choice([a, None, "2", "4"])))
    decl = mem + extra
    rng.shuffle(decl)
    name, form = "T%d" % n, n % 4
    o = []
    head = {0: "struct T%d {" % n, 1: "namespace deep { namespace er { struct T%d {" % n, 2: "template<typename X> struct Tpl%d {" % n, 3: "class T%d { public: T%d() {}" % (n, n)}[form]
    full = {0: "T%d" % n, 1: "deep::er::T%d" % n, 2: "Tpl%d<int>" % n, 3: "T%d" % n}[form]
    o.append(head)
    if private:
        o.append("private: LIBFLATARRAY_ACCESS")
    for t, m, a in decl:
        o.append("  %s %s%s;" % (t, m, "[%s]" % a if a else ""))
    o.append("public:")
    o.append("  enum { MEMBERS = %d };" % count)
    # member by member, in registration order
    o.append("  template<class F> static void each(F& f) {")
    for t, m, a in mem:
        o.append("    f.template member<%s>(%s, &%s::%s);" % (t, "long(%s)" % a if a else "0", full if form != 2 else "Tpl%d" % n, m))
    o.append("  }")
    o.append("  template<class F> static void others(F& f) {")
    for t, m, a in extra:
        o.append("    f.decoy(&%s::%s);" % (full if form != 2 else "Tpl%d" % n, m))
    o.append("  }")
    o.append("  template<class F> void values(F& f) {")
    for t, m, a in mem:
        o.append("    f.value(%s);" % m)
    o.append("  }")
    o.append("  template<class A, class F> static void access(A& a, F& f) {")
    for t, m, a in mem:
        o.append("    f.address((char*)&a.%s());" % m if not a else "    f.address((char*)&a.template %s<0>());" % m)
    o.append("  }")
    o.append("  struct API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_no_asymmetric_dual_callback { LIBFLATARRAY_CUSTOM_SIZES((16), (4), (2)) };")
    o.append("};" + (" } }" if form == 1 else ""))
    reg = "".join("((%s)(%s)%s)" % (t, m, "(%s)" % a if a else "") for t, m, a in mem)
    o.append("LIBFLATARRAY_REGISTER_SOA(%s, %s)" % (full, reg))
    o.append("#define VF_RUN_%d run<%s>(\"%s\");" % (n, full, full))
    return "\n".join(o)

def generate(d, gseed, counts, light=(1, 1)):
    os.makedirs(d, exist_ok=True)
    rng = random.Random(gseed)
    o = ["// generated", "static const int K3 = 3;", "struct Three { float a, b, c; bool operator==(const Three& o) const { return a == o.a && b == o.b && c == o.c; } };",
         "struct Odd { char c[5]; };", "struct Nested { Three t; double d[2]; };"]
    for n, c in enumerate(counts):
        if c == 0:
            c = rng.randint(1, 51)
        o.append(cell(n, rng, c, rng.choice([1, 1, 2, 3, 6, 12]), rng.random() < 0.5, rng.choice([0, 1, 3, 6]), 0))
    for n in range(light[0], light[1]):  # metadata only, every list length
        o.append("struct L%d { int %s; };" % (n, ", ".join("v%d" % i for i in range(n))))
        o.append("LIBFLATARRAY_REGISTER_SOA(L%d, %s)" % (n, "".join("((int)(v%d))" % i for i in range(n))))
        o.append("inline void light_%d() { int (L%d::* p[])= {%s}; light<L%d, %d>(p); }" % (n, n, ", ".join("&L%d::v%d" % (n, i) for i in range(n)), n, n))
    o.append("#define VF_LIGHT_ALL " + " ".join("light_%d();" % n for n in range(light[0], light[1])))
    o.append("#define VF_RUN_ALL " + " ".join("VF_RUN_%d" % n for n in range(len(counts))))
    open(os.path.join(d, "c18_types.hpp"), "w").write("\n".join(o) + "\n")

def prepare(gseed, counts, light=(1, 1)):
    def f(repo, here, d):
        generate(d, gseed, counts, light)
        return ["-I" + d, "-I" + os.path.join(here, "include"), "-I" + os.path.join(repo, "include")]
    return f
