"""Copies the headers with every kernel launch K<<<C>>>(A) rewritten to a call of the emulator."""
import os, re, shutil

def rewrite(t):
    out = []
    while True:
        i = t.find("<<<")
        if i < 0:
            return "".join(out) + t
        # the kernel expression: identifiers, ::, template argument lists
        j = i
        while j > 0 and t[j - 1].isspace():
            j -= 1
        while j > 0:
            c = t[j - 1]
            if c == ">":
                d = 0
                while True:
                    j -= 1
                    d += (t[j] == ">") - (t[j] == "<")
                    if d == 0:
                        break
            elif c.isalnum() or c in "_:":
                j -= 1
            else:
                break
        e = t.index(">>>", i)
        conf = t[i + 3:e]
        k = e + 3
        while t[k].isspace():
            k += 1
        if t[k] != "(":
            raise ValueError("unexpected text after >>>")
        d, m = 0, k
        while True:
            d += (t[m] == "(") - (t[m] == ")")
            if d == 0:
                break
            m += 1
        out.append(t[:j] + "::vf_cuda::launch(::vf_cuda::config(%s), ::std::make_tuple(%s), [&](auto&... vf_a) { %s(vf_a...); })" % (conf, t[k + 1:m], t[j:i].strip()))
        t = t[m + 1:]

def strip_comments(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: "\n" * m.group(0).count("\n"), t, flags=re.S)

def prepare(repo, here, d):
    inc = os.path.join(d, "include")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(repo, "include"), inc)
    for root, _, files in os.walk(inc):
        for f in files:
            p = os.path.join(root, f)
            t = open(p, encoding="utf-8", errors="surrogateescape").read()
            if "<<<" in t:
                open(p, "w", encoding="utf-8", errors="surrogateescape").write(rewrite(strip_comments(t)))
    return ["-I" + os.path.join(here, "include"), "-I" + inc, "-I" + os.path.join(here, "cuda"), "-I" + os.path.join(here, "harness"),
            "-D__CUDACC__", "-DLIBFLATARRAY_WITH_CUDA", "-include", os.path.join(here, "cuda", "vf_cuda.hpp")]
