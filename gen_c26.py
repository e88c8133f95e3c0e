"""Generates lists of every supported length and everything that can be asked
about them for C26; the expectations are written down by the generator."""
import os, random

N = 51   # longest list, as for registered members

def generate(d, gseed):
    os.makedirs(d, exist_ok=True)
    rng = random.Random(gseed)
    o = ["// generated"]
    calls = []
    for n in range(N + 1):
        v = [rng.randint(-10**6, 10**6) for _ in range(n)]
        if n > 3 and rng.random() < 0.3:
            v[rng.randrange(n)] = v[0]          # repeated elements
        nm = "VF_LIST_%d" % n
        o.append("#define %s %s" % (nm, "".join("(%d)" % x for x in v)))
        # the same elements in the second place of sublists, the place of commas, types and strings
        o.append("#define VF_DEEP_%d %s" % (n, "".join("((T%d)(%d)((%d, 7)))" % (i, x, i) for i, x in enumerate(v))))
        o.append("#define VF_LEFT_%d LIBFLATARRAY_DEQUEUE(%s)" % (n, nm) if n else "#define VF_LEFT_0")
        o.append("static void list_%d() {" % n)
        o.append("  static const long v[] = {%s0}; begin(%d, v);" % ("".join("%d, " % x for x in v), n))
        S = "VF_STRINGIFY(LIBFLATARRAY_%s)"
        o.append("  size(%s); deep_size(%s); rest_size(%s);" % (S % ("SIZE(%s)" % nm), S % ("SIZE(VF_DEEP_%d)" % n), S % ("SIZE(VF_LEFT_%d)" % n)))
        for i in range(n):
            e = "ELEM(%%d, LIBFLATARRAY_ELEM(%d, VF_DEEP_%d))" % (i, n)
            o.append("  elem(%d, %s); deep_elem(%d, %s, %s);" % (i, S % ("ELEM(%d, %s)" % (i, nm)), i, S % (e % 1), S % (e % 0)))
        for i in range(n - 1):
            o.append("  rest_elem(%d, %s);" % (i, S % ("ELEM(%d, VF_LEFT_%d)" % (i, n))))
        if n:
            a = rng.randint(-999, 999)
            o.append("  loop(false, %d, %s);" % (a, S % ("FOR_EACH(VF_EACH, %d, %s)" % (a, nm))))
            o.append("  loop(false, %d, %s);" % (a, S % ("FOR_EACH(VF_DEEP_EACH, %d, VF_DEEP_%d)" % (a, n))))
            if n > 1:
                o.append("  loop(true, %d, %s);" % (a, S % ("FOR_EACH(VF_EACH, %d, VF_LEFT_%d)" % (a, n))))
        for l in range(max(0, n - 50), 51):
            o.append("  shorter(%d, %s, %s); shorter(%d, %s, %s);" % (l, S % ("IF_SHORTER(%s, %d, 1, 2)" % (nm, l)), S % ("IF_SHORTER(VF_DEEP_%d, %d, 1, 2)" % (n, l)), l, S % ("IF_SHORTER(%s, %d, VF_FIRST, VF_SECOND)(%d)" % (nm, l, l)), S % ("IF_SHORTER(VF_DEEP_%d, %d, (1), (2))" % (n, l))))
        o.append("}")
        calls.append("list_%d();" % n)
    o.append("#define VF_ALL_LISTS " + " ".join(calls))
    open(os.path.join(d, "c26_lists.hpp"), "w").write("\n".join(o) + "\n")

def prepare(gseed):
    def f(repo, here, d):
        generate(d, gseed)
        return ["-I" + d, "-I" + os.path.join(here, "include"), "-I" + os.path.join(repo, "include")]
    return f
