"""Which harness is built how, for which property."""
import os
EMU = os.path.join(os.path.dirname(os.path.abspath(__file__)), "isa")
ISA = {
    "scalar": ["-march=x86-64", "-U__SSE__", "-U__SSE2__", "-U__SSE3__", "-U__SSE4_1__", "-U__AVX__", "-U__AVX2__", "-U__AVX512F__"],
    "sse": ["-march=x86-64", "-U__SSE2__", "-U__SSE3__"],
    "sse2": ["-march=x86-64"],
    "sse4": ["-march=x86-64-v2"],
    "avx": ["-march=x86-64-v2", "-mavx"],
    "avx2": ["-march=x86-64-v3"],
    "avx512": ["-march=x86-64-v4"],
}
# instruction sets other CPUs have, their intrinsics executed by stand-ins in isa/
ISA["neon"] = ISA["scalar"] + ["-U__LP64__", "-D__ARM_NEON__=1", "-DVF_NEON", "-DVF_APPROX_SQRT=1", "-isystem", os.path.join(EMU, "neon")]
ISA["mic"] = ["-march=x86-64-v4", "-D__MIC__", "-DVF_APPROX_SQRT=1", "-include", os.path.join(EMU, "imci.h")]
SANS = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"],
}

def job(src, isa="sse4", san="asan", opt="-O1", cc="g++", std="c++14", extra=(), name=None, **kw):
    d = {"src": src, "isa": isa, "cc": cc,
         "flags": ["-std=" + std, opt, "-g1", "-w", "-pthread"] + ISA[isa] + SANS[san] + list(extra),
         "name": name or "%s-%s-%s-%s%s" % (src.split(".")[0], isa, san, cc.replace("+", "p"), opt)}
    d.update(kw)
    return d

PROPERTIES = {}
def prop(id, jobs, rule, need=(), level="exploration", **kw):
    PROPERTIES[id] = dict(jobs=jobs, rule=rule, need=list(need), level=level, **kw)

def parts(src, n, thorough=True):
    """like both(), for a harness split into n parts"""
    c = src.split(".")[0]
    r = []
    for p in range(n):
        e = ["-DPART=%d" % p]
        r += [job(src, extra=e, name="%s-part%d-asan" % (c, p)), job(src, "avx2", "plain", "-O2", extra=e + ["-DVF_SCALE=6"], name="%s-part%d-plain" % (c, p))]
        if thorough:
            r += [job(src, "sse4", "asan", "-O1", "clang++", extra=e, name="%s-part%d-clang" % (c, p), tier="thorough"), job(src, "avx512", "plain", "-O3", extra=e, name="%s-part%d-avx512" % (c, p), tier="thorough")]
    return r

prop("C01", parts("c01.cpp", 2),
     "Random histories of single/multi-cell writes, broadcasts and reads over six registered cell types, default and exact-size allocators, dimensions at and around every size-list entry; each step is checked against an array model and the whole storage is diffed byte by byte with an ownership map. A case is non-trivial when it operates on at least one cell; distinct = (cell type, dimensions, operation, position, count).",
     ["set", "set_run", "broadcast", "get_run", "final_cells_compared", "far_writes", "swept_lengths"])

def both(src, thorough=True, **kw):
    """ASan+UBSan on SSE4 plus an optimised uninstrumented AVX2 build; clang and AVX512 in the thorough tier."""
    r = [job(src, **kw), job(src, "avx2", "plain", "-O2", extra=["-DVF_SCALE=40"], **kw)]
    if thorough:
        r += [job(src, "sse4", "asan", "-O1", "clang++", tier="thorough", **kw), job(src, "avx512", "plain", "-O3", tier="thorough", **kw)]
    return r

prop("C02", [job("c02.cpp", san="ubsan", extra=["-DPART=%d" % p], name="c02-part%d-ubsan" % p) for p in (0, 1, 2)]
     + [job("c02.cpp", "avx2", "plain", "-O2", cc="clang++", extra=["-DPART=%d" % p], name="c02-part%d-clang" % p, tier="thorough") for p in (0, 1, 2)],
     "For each size list (default lists, custom, uniform, single-entry) requests at, just below and just above every list entry in every dimension, plus random ones: the size the kernel is bound to is compared with an independent minimum search, and whole grids are placed flush against unmapped guard pages with every corner cell written. distinct = (cell type, request).",
     ["bound", "refused", "grid_bound", "grid_refused", "corners"])
prop("C03", parts("c03.cpp", 2),
     "Random runs and lists of runs are saved into and loaded from blocks of exactly the implied size (with canaries and ASan redzones); the packed block is compared byte by byte with an independently computed layout, and the whole grid is compared with a model afterwards. distinct = (cell type, dimensions, operation, runs).",
     ["save_single", "save_list", "load_single", "load_list", "inverse", "accessor_xfer", "swept_lengths"])
prop("C04", parts("c04.cpp", 3),
     "Random histories of copies, assignments, self-assignments, swaps, resizes and writes over a pool of grids (empty ones included), each step followed by a comparison of dimensions, extents and every cell of every grid in the pool with a model of values; distinct = history.",
     ["copy_ctor", "assign", "self_assign", "member_swap", "free_swap", "resize", "write", "swept_lengths"])
prop("C05", [job("c05.cpp"), job("c05.cpp", "avx2", "plain", "-O2", extra=["-DVF_SCALE=6"]), job("c05.cpp", cc="clang++", tier="thorough")],
     "Members are instrumented objects: each construction, destruction, copy, assignment and read is an event checked online against a registry keyed by address (automaton dead-alive-dead, identity through self pointer and owned heap block); histories over grid, fixed-capacity and growable array, then emptiness of the registry and the heap ledger. distinct = history.",
     ["grid_", "array_", "vector_", "objects_"], technique="online lifetime automaton on instrumented member objects, heap ledger, ASan/UBSan/LSan")
prop("C06", [job("c06.cpp", extra=["-DPART=%d" % p], name="c06-part%d-asan" % p) for p in (0, 1)]
     + [job("c06.cpp", "avx2", "plain", "-O2", extra=["-DPART=%d" % p, "-DVF_SCALE=10"], name="c06-part%d-plain" % p) for p in (0, 1)]
     + [job("c06.cpp", cc="clang++", extra=["-DPART=%d" % p], name="c06-part%d-clang" % p, tier="thorough") for p in (0, 1)],
     "In kernels over many storage sizes the address of every member (and array element) of random and boundary cells is taken through every access path and compared with an independently computed layout; neighbours are addressed through fixed and dynamic relative coordinates. distinct = (cell type, storage size, cell, path).",
     ["addresses_compared", "placements", "huge_cells", "neighbour_writes", "array_elements"])
prop("C07", both("c07.cpp"),
     "Pairs of grids of random (equal and different) sizes, kernels recording invocation count, bound sizes and data pointers and moving marked cells between the two; both grids compared with a model. distinct = (cell type, both dimensions).",
     ["refused", "equal_pair", "asymmetric_pair", "cells_moved", "swept_lengths"])
prop("C08", both("c08.cpp"),
     "Random operation histories against a bounded-sequence model, with refusals (including counts near SIZE_MAX) probed at every boundary and canaries around the array. distinct = history.",
     ["append", "pop", "load", "refused_append", "refused_pop", "refused_load", "refused_construct"])
prop("C09", both("c09.cpp"),
     "Random histories over a pool of arrays of two capacities: copy construction and assignment from const, non-const and temporary sources in both directions, self-assignment, swaps, refusals; after each step all arrays are compared with value models, refused copies with the heap ledger and the member-object registry. distinct = history.",
     ["copy_construct", "assign", "refused_copy", "refused_assign", "swap", "self_swap", "self_assign"])
prop("C10", [job("c10.cpp", extra=["-DPART=%d" % p], name="c10-part%d-asan" % p) for p in (0, 1)]
     + [job("c10.cpp", "avx2", "plain", "-O2", extra=["-DPART=%d" % p, "-DVF_SCALE=60"], name="c10-part%d-plain" % p) for p in (0, 1)]
     + [job("c10.cpp", cc="clang++", extra=["-DPART=%d" % p], name="c10-part%d-clang" % p, tier="thorough") for p in (0, 1)],
     "Random operation histories over two growable arrays (plain, heap-owning and self-referential members, default and custom size lists) against std::vector, with kernels scanning the elements after every step, plus one-by-one growth through the storage sizes. distinct = history or growth point.",
     ["append", "pop", "resize", "reserve", "clear", "copy", "assign", "write", "kernel_scan", "growth"])
prop("C11", [job("c11.cpp", san=sn, extra=["-DPART=%d" % p], name="c11-part%d-%s" % (p, sn)) for p in range(4) for sn in ("asan", "plain")]
     + [job("c11.cpp", cc="clang++", extra=["-DPART=%d" % p], name="c11-part%d-clang" % p, tier="thorough") for p in range(4)],
     "operator new/delete are replaced by an arena that chooses the residue of each chunk modulo the page, fences it and keeps a ledger; random allocate/release orders for 7 object sizes x 15 alignments, contents and overlap checked, impossible and overflowing requests, heap exhaustion, standard containers. distinct = (type, alignment, count, residue).",
     ["allocate", "deallocate", "deallocate_null", "impossible_request", "heap_exhausted", "container_append"])

ALL_ISAS = ("scalar", "sse", "sse2", "sse4", "avx", "avx2", "avx512")
def per_isa(src, parts, quick_san="ubsan", neon=(), mic=()):
    c = src.split(".")[0]
    r = []
    for isa in ALL_ISAS:
        for p in parts:
            e = ["-DPART=%d" % p, "-ffp-contract=off"]
            r.append(job(src, isa, quick_san, "-O1", extra=e, name="%s-%s-part%d" % (c, isa, p), weight=3 if isa == "scalar" else 1))
            r.append(job(src, isa, "plain", "-O3", extra=e + ["-DNDEBUG"], name="%s-%s-part%d-O3-ndebug" % (c, isa, p), tier="thorough"))
            r.append(job(src, isa, "plain", "-O2", cc="clang++", extra=e, name="%s-%s-part%d-clang" % (c, isa, p), tier="thorough"))
    for isa, ps in (("neon", neon), ("mic", mic)):
        r += [job(src, isa, quick_san, "-O1", extra=["-DPART=%d" % p, "-ffp-contract=off"], name="%s-%s-part%d" % (c, isa, p)) for p in ps]
    return r
SV = "Every instruction set the CPU offers (scalar, SSE, SSE2, SSE4.1, AVX, AVX2, AVX512F) is its own build. "
EMULATED = "NEON and Xeon Phi vectors run on stand-ins for their intrinsics. "
prop("C12", per_isa("c12.cpp", (0, 1, 2), neon=(0,), mic=(0, 1)), SV + EMULATED + "Random lane operands (special values, denormals, huge, NaN payloads where the result is exact; moderate magnitudes for approximate division; non-overflowing full-range integers) through binary, compound, const, aliased and scalar-left forms of + - * / sqrt and / sqrt, each lane compared with a scalar oracle. distinct = operand vectors.",
     ["op_+", "op_-", "op_*", "op_/", "op_sqrt", "op_/sqrt", "op_scalar", "cross_lane"], technique="differential monitoring of every vector lane against a scalar oracle per ISA build, UBSan")
prop("C13", per_isa("c13.cpp", (0, 1), neon=(0,)), SV + "All 2^N lane patterns for widths up to 8 and systematic plus random ones for 16 and 32, for each of the five comparisons, with hostile operands; mask lanes, any, count and blends (of arbitrary bit patterns) compared lane by lane. distinct = (type, comparison, mask pattern).",
     ["compare_<", "compare_<=", "compare_==", "compare_>", "compare_>=", "lanes"], technique="differential monitoring of masks and blends against a scalar oracle per ISA build, UBSan")
prop("C14", per_isa("c14.cpp", (0, 1, 2), neon=(0,), mic=(0, 1)), SV + EMULATED + "Loads and stores flush against unmapped pages at every element offset, whole buffers diffed; gathers and scatters with negative, duplicate and full-int-range offsets (sparse 2^32-element reservations). distinct = (type, form, placement or offsets).",
     ["load", "load_aligned", "store", "store_aligned", "store_nt", "gather", "scatter", "far_lanes"], technique="guard-page memory monitors and whole-buffer diffs per ISA build, UBSan")
prop("C15", per_isa("c15.cpp", (0, 1, 2), neon=(0,), mic=(0, 1)), SV + EMULATED + "Every constructor of each vector type (scalar, pointer, list, lanes, native registers, copy, move) with hostile lane values, printing tokenised and compared lane by lane. distinct = lane values.",
     ["built_scalar", "built_memory", "built_list", "built_default", "built_copy", "built_lane-constructor", "built_register-constructor", "printed"], technique="differential monitoring of constructed lanes per ISA build, UBSan")
prop("C16", per_isa("c16.cpp", (0, 1, 2)), SV + "Each operation is executed on streaming and ordinary vectors with the same hostile lanes and compared bit by bit; all four store forms into guard-paged aligned memory. distinct = operand vectors.",
     ["compared_op", "compared_blend", "compared_masks", "store", "store_aligned", "store_nt"], technique="differential monitoring of streaming against ordinary vectors per ISA build, guard pages, UBSan")
import gen_c18
prop("C17", [job("c17.cpp", isa, san, extra=["-DPART=%d" % p], name="c17-%s-part%d" % (isa, p)) for isa, san in (("sse4", "asan"), ("avx512", "ubsan"), ("avx2", "ubsan")) for p in (0, 1, 2)]
     + [job("c17.cpp", isa, "plain", "-O3", cc="clang++", extra=["-DPART=%d" % p], name="c17-%s-part%d-clang" % (isa, p), tier="thorough") for isa in ("scalar", "avx2", "sse2") for p in (0, 1, 2)],
     "Every start and end around multiples of the width for all widths, element types, ordinary and streaming vectors, macro and function forms and eight counter type combinations, plus ranges far from zero, negative ends and reversed ranges; the loop body logs each step and the log is checked against the trace specification (exactly once, ascending, full-width steps aligned and in range). Kernels with real aligned stores run on memory ending at an unmapped page. distinct = (form, width, start, end).",
     ["ranges", "iterations", "empty_ranges", "negative_end", "range_with_vector_part", "range_without_vector_part", "work_elements"], technique="trace checker over the recorded steps of the peeled loop, ASan/UBSan, guard pages")
_C18 = [([1, 2, 50, 0], (1, 1)), ([3, 51, 0, 0], (1, 1)), ([5, 0, 0, 0], (1, 1)), ([8, 0, 0, 0], (1, 1)), ([], (1, 40)), ([], (40, 52))]
prop("C18", [job("c18.cpp", opt="-O0", name="c18-gen%d" % i, prepare=gen_c18.prepare(100 + i, c, l)) for i, (c, l) in enumerate(_C18)]
     + [job("c18.cpp", "avx2", "plain", "-O1", cc="clang++", name="c18-gen%d-clang" % i, prepare=gen_c18.prepare(1000 + i, [0, 0, 0, 0], (1, 1)), tier="thorough") for i in range(12)],
     "Generated cell types (1 to 51 members, 16 member types, arrays with literal and expression arities, repeated types, unregistered decoys of the same type, private members, namespaces, templates, registration order different from declaration order): reported count, aggregated size and offset of every member against sizeof arithmetic, refusal of every decoy, then addresses and round trips through storage. Lists of every length from 1 to 51 are covered. distinct = (type, member).",
     ["types", "array_members", "scalar_members", "decoys", "long_lists", "single_member_lists", "light_lists", "roundtrips"], technique="generated cell types monitored against an independent layout computation, ASan/UBSan")
_BITS = {"scalar": 0, "sse": 128, "sse2": 128, "sse4": 128, "avx": 256, "avx2": 256, "avx512": 512, "neon": 128, "mic": 512}
prop("C19", [job("c19.cpp", isa, "ubsan", extra=["-DVF_BITS=%d" % b], name="c19-" + isa) for isa, b in _BITS.items()]
     + [job("c19.cpp", isa, "plain", "-O2", cc="clang++", extra=["-DVF_BITS=%d" % b], name="c19-clang-" + isa, tier="thorough") for isa, b in _BITS.items() if isa not in ("neon", "mic")],
     SV + "Selected widths for all element types and unroll factors, streaming decision at, below and above the cache estimate for working sets in one to three dimensions; every vector type does aligned and streaming transfers at addresses aligned exactly as reported and no better, flush to unmapped pages. distinct = (type, unroll, working set, cache).",
     ["alignments", "aligned_uses", "ilp_arities", "estimate_streaming", "estimate_ordinary", "unroll_factors"], technique="monitoring of the selected types and of aligned transfers at exactly the reported alignment per ISA build, UBSan, guard pages")
prop("C20", [job("c20.cpp", san=sn, opt=o, isa=isa, extra=["-DPART=%d" % p], name="c20-%s-part%d" % (sn, p)) for sn, o, isa in (("tsan", "-O1", "sse4"), ("plain", "-O2", "avx2")) for p in (0, 1)]
     + [job("c20.cpp", san="tsan", opt="-O2", isa="avx2", cc="clang++", extra=["-DPART=%d" % p, "-DVF_RUNS=60"], name="c20-clang-part%d" % p, tier="thorough") for p in (0, 1)],
     "2 to 8 threads read one shared grid, fixed-capacity or growable array through all read-only operations, update disjoint cells (interleaved, blocked, random partitions) of one grid through kernels and pair kernels, or use containers of their own, with injected delays; ThreadSanitizer watches every access, each value read is compared with a model, lost updates are looked for afterwards. Operations draw relaxed tickets, so that the order in which the threads' operations interleaved is known. distinct = interleavings of operations.",
     ["get", "get_run", "save", "kernel_read", "copy", "array_at", "array_copy", "vector_get", "vector_kernel", "kernel_update", "pair_kernel", "row_kernel", "own_", "thread_switches"], technique="ThreadSanitizer plus value monitors under multithreaded stress with injected delays", workers=2)
prop("C21", both("c21.cpp"),
     "Every container operation is repeated with its n-th storage allocation, its n-th member copy or (for heap-owning members) its n-th allocation of any size failing, for n = 0, 1, ... until no fault is left to inject; plus requests for unsupported dimensions and sizes. After each fault the monitor checks the reported exception, a registry of live member objects, a ledger of heap blocks, the previously stored contents and that the container can be reused. distinct = (operation, kind of fault, fault number, case).",
     ["fault_storage", "fault_copy", "fault_strings", "refused_dimensions", "refused_growth", "reused", "cells_reread", "elements_reread"],
     technique="systematic fault injection (allocation and member-copy failures) under lifetime and heap ledgers, ASan+UBSan")
from gen_c22 import prepare as _emulated
prop("C22", [job("c22.cpp", san=sn, opt="-O1", extra=["-DPART=%d" % p] + ex, name="c22-part%d%s" % (p, n), prepare=_emulated) for p, sn, ex, n in ((2, "plain", [], ""), (1, "asan", [], ""), (0, "plain", [], ""), (3, "asan", [], ""), (3, "plain", ["-D__CUDA_ARCH__=600"], "-device"), (4, "plain", [], ""))]
     + [job("c22.cpp", san="asan", extra=["-DPART=%d" % p], name="c22-asan-part%d" % p, prepare=_emulated, tier="thorough") for p in (0, 2, 4)],
     "The headers are compiled with their CUDA code enabled, kernel launches rewritten to calls of a CPU emulation in which device memory is only accessible during kernels and transfers and the host memory of the workload only outside of kernels, threads run in random order, allocations are fenced by guard pages and canaries, and each transfer is checked against the address classes. Random histories on device grids (reads, writes, broadcasts, raw load/save of run lists, resizing, swapping, whole transfers, user kernels), device arrays, fixed-capacity arrays in device memory and the allocator are compared with models; the storage is diffed byte by byte after each step. distinct = (type, operation, dimensions, position, count).",
     ["set", "set_run", "broadcast", "get", "get_run", "raw_single", "raw_list", "resize", "transfer", "swap", "user_kernel", "threads_emulated", "kernel_launches", "device_to_device", "members_constructed_on_device", "assign", "grow_fill", "reserve", "device_array_ops", "swept_lengths"],
     technique="execution of the device code paths on an emulated device with address-class, lifetime and isolation monitors",
     note="No GPU or CUDA toolchain exists here: the device code is executed by an emulator on the CPU, so only the library's own logic is judged, not nvcc or hardware behaviour.")
prop("C23", per_isa("c23.cpp", (0, 1, 2)), SV + "Whole kernels (7-point stencil over a grid pair, in-place relaxation of array members with masked update and reduction, gather/scatter permutation of rows, particle interaction with cut-off on growable and fixed-capacity arrays) run through callbacks, relative accessors, the loop peeler and ordinary or streaming vectors of all widths on random regions of random grids; each cell is compared with a scalar loop over an array of structs and each byte of storage outside of the written members in the region is diffed. distinct = (kernel, vector type, dimensions, region).",
     ["stencil", "stencil_streaming", "relax", "permute", "particles", "cells_compared", "bytes_fenced", "masked_lanes"], technique="differential monitoring of whole kernels against scalar loops over an array of structs, with whole-storage fences, per ISA build, UBSan")
_CUDA_SHIM = "-I" + os.path.join(os.path.dirname(EMU), "cuda")
prop("C24", [job("c24.cpp", extra=[_CUDA_SHIM], libs=["-ldl"]), job("c24.cpp", "avx2", "plain", "-O2", extra=[_CUDA_SHIM], libs=["-ldl"]), job("c24.cpp", cc="clang++", extra=[_CUDA_SHIM], libs=["-ldl"], tier="thorough")],
     "Random evaluations (names, families, devices, dimensions, revisions, times, outcomes) under a fake clock and host name, each output line parsed by column and compared with the measurement; CPU names from generated likwid-topology outputs and /proc/cpuinfo contents (x86, POWER, ARM, arbitrary lines) served through a scratch PATH and a redirected fopen. distinct = output line or CPU description.",
     ["rows", "fields", "filtered", "silent", "failed", "device_likwid", "device_cpuinfo", "device_unknown", "device_gpu"], technique="output monitors over a controlled environment (redirected files, commands and clock), ASan/UBSan")
_EX = ["-fno-access-control", "-ffp-contract=off", "-I" + os.path.join(os.path.dirname(EMU), "stub")]
prop("C25", [job("c25.cpp", isa, san, o, extra=_EX + ["-DPART=%d" % p] + (["-fopenmp"] if p < 2 else []), name="c25-%s-part%d" % (isa, p)) for isa, san, o in (("sse4", "asan", "-O1"), ("avx2", "ubsan", "-O2"), ("scalar", "plain", "-O2"), ("avx512", "plain", "-O3")) for p in (0, 1, 2, 3) + ((4,) if isa in ("sse4", "scalar") else ())],
     "The example programs are compiled in; their kernels run on random grids (sizes around the storage sizes and vector widths, values over the whole double range, several steps and threads) and every cell of both grids is compared with the plain version; the particle kernels run on random clouds (all interactions summed in double as reference); whole programs are run with valid and invalid arguments. distinct = (kernel, dimensions or parameters, steps, threads).",
     ["lfa_steps", "c99_steps", "particles_compared", "silver_steps", "pepper_steps", "bronze_steps", "gold_steps", "cells_compared", "pairs", "program_runs", "program_usage", "program_children", "lbm_accessors", "benchmarks"], technique="differential monitoring of the example kernels against plain loops, ASan/UBSan")
from gen_c26 import prepare as _lists
prop("C26", [job("c26.cpp", opt="-O0", cc=cc, extra=ex, name="c26-%s%s" % (cc.replace("+", "p"), n), prepare=_lists(gs), tier=t) for cc, ex, n, gs, t in (("g++", [], "", 1, "quick"), ("clang++", [], "", 2, "quick"), ("g++", ["-DVF_WHOLE"], "-whole", 3, "quick"), ("clang++", ["-DVF_WHOLE"], "-whole", 4, "thorough"))],
     "Lists of every length from 0 to 51 with random elements, plain and nested, are generated together with what must be found in them; every operation is applied at every position and length and what it expands to (for loops: the trace of steps) is recorded and compared. distinct = (operation, list length, position).",
     ["lists", "sizes", "elements", "nested_elements", "dequeues", "for_each_steps", "for_each_loops", "if_shorter"], technique="trace checker over the recorded expansions of generated lists, two compilers")
NOT_APPLICABLE = {}
