#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I = "include/libflatarray/"
D = I + "detail/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

p("C01", "A grid stores every cell independently and returns what was last written",
  "A 1D, 2D or 3D grid behaves like an array of independent cells: after any sequence of single-cell writes, multi-cell writes and broadcasts, reading any cell, one at a time or as a run, returns for every registered member (array members included) exactly the value last written there. A write changes no other cell, no other member and no memory outside the grid's own storage, and cells never written read as value-initialised members.",
  ["inputs", "histories", "configurations"],
  "all grid dimensions supported, all cell types, all write/read histories",
  "The tests write a few fixed patterns to a few fixed sizes and read the same cells back; they do not look at untouched cells, other members, padding or storage bounds.",
  [I+"soa_grid.hpp", D+"set_instance_functor.hpp", D+"get_instance_functor.hpp", D+"macros.hpp", I+"macros.hpp"],
  [("cell is split into members through a size-bound accessor", D+"set_instance_functor.hpp"), ("cell is gathered from members", D+"get_instance_functor.hpp"), ("member copy in/out macros", D+"macros.hpp")],
  ["values returned by get", "whole storage of the grid"])

p("C02", "Storage is sized from the supported sizes so that every cell fits",
  "For any requested dimensions a grid and its kernels are bound to the smallest supported storage size of the cell type's size list that is at least as large as the request in each dimension, and the storage holds exactly that many cells of every member. Dimensions that no supported size covers, or that do not fit the declared dimensionality, are refused with an out-of-range error instead of being bound to a size that is too small.",
  ["inputs", "configurations"],
  "all dimension triples against the default 1D/2D/3D lists (uniform and per-dimension) and custom size lists",
  "The tests probe about ten triples per list; boundaries of most entries, per-dimension lists and the refusal of unsupported triples are not covered.",
  [I+"api_traits.hpp", I+"macros.hpp", D+"macros.hpp", D+"set_byte_size_functor.hpp", I+"soa_grid.hpp"],
  [("runtime dimension to compile-time size dispatch", I+"macros.hpp"), ("default size lists", I+"api_traits.hpp"), ("storage size computation", D+"set_byte_size_functor.hpp")],
  ["extents, byte size and kernel-visible sizes reported to user code", "exceptions"])

p("C03", "Raw bulk load and save are exact inverses in a documented packed layout",
  "Saving any run or list of runs of cells produces one packed block in which each member, in registration order, occupies one contiguous array over all saved cells (array members one such array per array element), and loading such a block restores exactly those cells. Saving never modifies the grid, loading modifies no cell outside the given runs, and neither touches raw memory outside the block implied by the cell count.",
  ["inputs", "histories"],
  "all run positions and lengths, lists of runs, cell types with scalar and array members",
  "The tests save and load a few fixed rows with one block size and do not check buffer bounds, neighbours or multi-run offsets at arbitrary positions.",
  [D+"load_functor.hpp", D+"save_functor.hpp", I+"macros.hpp", D+"soa_array_member_copy_helper.hpp", I+"soa_grid.hpp"],
  [("row copy with offset and stride", I+"macros.hpp"), ("iteration over runs", D+"load_functor.hpp")],
  ["raw buffer bytes incl. guard zones", "grid contents"])

p("C04", "Grid copy, assignment, swap and resize have value semantics",
  "Copy-constructing, assigning, self-assigning, swapping and resizing grids, including empty ones and ones of different dimensions, leave each grid with the dimensions, storage extents and cell contents that value semantics require, and independent of every other grid. Resizing to different dimensions yields a grid of the new dimensions whose cells are freshly initialised, and resizing to the current dimensions changes nothing.",
  ["histories", "inputs"],
  "all interleavings of copy/assign/swap/resize/write over a pool of grids",
  "The tests copy or assign a couple of equally shaped grids; swapping different shapes, empty grids, chains of operations and storage extents of copies are not exercised.",
  [I+"soa_grid.hpp", D+"copy_functor.hpp", D+"construct_functor.hpp", D+"dual_callback_helper.hpp"],
  [("copy constructor, assignment, swap, resize", I+"soa_grid.hpp"), ("member-wise copy", D+"copy_functor.hpp")],
  ["dimensions, extents, byte size, contents of every grid after every step"])

p("C05", "Every member object is constructed once, destroyed once and never leaked",
  "For cell types with non-trivial members, the grid, the fixed-capacity array and the growable array construct every member object exactly once before any use and destroy it exactly once, never assign to or read from a member that is not alive, never relocate a member by copying its bytes, and release all memory and resources when the container dies. This holds across copies, assignments, swaps, resizes, growth, raw loads and removal of elements.",
  ["histories", "inputs"],
  "all histories of container operations with non-trivial members, array members included",
  "The tests have three fixed scenarios with one counting member; they cannot see reads of unconstructed members, byte-wise relocation or double destruction that happens to be balanced.",
  [I+"soa_grid.hpp", I+"soa_array.hpp", I+"soa_vector.hpp", D+"construct_functor.hpp", D+"destroy_functor.hpp", D+"generic_destruct.hpp", D+"macros.hpp"],
  [("construct/destroy per cell", D+"construct_functor.hpp"), ("construct/destroy all slots", I+"soa_array.hpp"), ("growth by load into a new grid", I+"soa_vector.hpp")],
  ["construction, destruction, assignment and read events of instrumented members keyed by address", "heap state at exit"])

p("C06", "Accessors address the right member of the right cell, near and far",
  "In any kernel, an accessor positioned at a cell reaches through every access path (named members, array-member elements, member access by index or by byte offset, whole-cell conversion and assignment, relative neighbour coordinates, incremented positions, read-only and lightweight accessors) exactly the same memory for the same member of the same cell. Members and array elements of distinct cells occupy disjoint memory inside the storage, consecutive cells of a row are contiguous per member, and moving by relative coordinates (positive or negative in each dimension) lands on the neighbour with those coordinates. Two accessors of the same kind compare equal exactly when they stand on the same cell of the same storage.",
  ["inputs", "configurations"],
  "all positions, relative coordinates, member kinds, storage sizes and accessor kinds",
  "The tests check a handful of coordinates on one or two sizes with symmetric dimensions; negative offsets, chained coordinates, per-dimension sizes and agreement between the accessor kinds are mostly untested.",
  [I+"macros.hpp", D+"macros.hpp", I+"soa_accessor.hpp", D+"offset.hpp", D+"soa_array_member_copy_helper.hpp", I+"coord.hpp"],
  [("index and address computation", I+"macros.hpp"), ("member address macro", D+"macros.hpp")],
  ["addresses returned by the accessors", "values read and written through them"])

p("C07", "Kernels over two grids see the right storage of both grids",
  "A kernel applied to a pair of grids is invoked exactly once with the first grid's cells as its first and the second grid's cells as its second argument, each bound to that grid's own storage size, and changes made through it appear in exactly those grids. For cell types without asymmetric support a dimension mismatch is refused with an invalid-argument error before the kernel runs and with both grids unchanged; with asymmetric support any two supported sizes work together.",
  ["inputs", "configurations"],
  "all pairs of grid dimensions, symmetric and asymmetric cell types, const and non-const grids",
  "The tests use one or two fixed pairs; mismatches in each single dimension, sizes that share a storage size but differ in dimensions and asymmetric pairs across the list are untested.",
  [I+"soa_grid.hpp", D+"dual_callback_helper.hpp", I+"api_traits.hpp"],
  [("pairwise size dispatch", D+"dual_callback_helper.hpp"), ("dimension check", I+"soa_grid.hpp")],
  ["kernel invocations and their storage sizes", "grid contents", "exceptions"])

p("C08", "The fixed-capacity array is a bounded sequence that refuses overflow",
  "After any sequence of appends, removals, clears, element writes and bulk loads the fixed-capacity array has the size, elements, iteration range and byte size that a bounded sequence would have. Constructing with, appending or loading more elements than the capacity, or removing from an empty array, is refused with an out-of-range error and leaves size and contents unchanged, and no operation touches memory outside the array object.",
  ["histories", "inputs", "configurations"],
  "all operation histories, capacities and cell types",
  "The tests run one short script per feature on one capacity and one type and never check contents after a refused operation or memory bounds.",
  [I+"soa_array.hpp", I+"macros.hpp", D+"macros.hpp"],
  [("capacity checks", I+"soa_array.hpp"), ("bulk load with offset and stride", I+"macros.hpp")],
  ["size, elements, exceptions, guard zones around the array object"])

p("C09", "Copying, assigning and swapping fixed-capacity arrays preserves all elements",
  "Copy construction, assignment and swapping of fixed-capacity arrays, from const, non-const or temporary sources and between different capacities, give the target exactly the source's elements and size, leave the source (or both swap partners) consistent and independent afterwards, and work for members that own resources or refer to their own address. A source with more elements than the target's capacity is refused with an out-of-range error without changing an existing target and without leaking.",
  ["histories", "inputs", "configurations"],
  "all source/target capacities, fill levels, constness and cell types",
  "The tests copy between two capacities once and swap once with plain data; same-capacity copies from const sources, temporaries, self-assignment and members that are not byte-copyable are untested.",
  [I+"soa_array.hpp", D+"macros.hpp"],
  [("copy_in, copy constructors, assignment, swap", I+"soa_array.hpp")],
  ["size and elements of both arrays", "member lifetime events", "exceptions"])

p("C10", "The growable array keeps its elements like a standard vector",
  "After any sequence of appends (copied or constructed in place), removals, element writes, resizes, reservations, clears and copies, the growable array has the size of a standard vector, every element that a standard vector would keep has the value last written, and its capacity is at least its size and at least every reservation made. Removing the last element lets go of what its members held. Elements that a resize adds in space which never held an element have default-constructed members. Kernels run over it see those same elements contiguously, and growth or reservation never loses, duplicates or reorders elements.",
  ["histories", "inputs"],
  "all operation histories, growth patterns and cell types, across every storage-size boundary",
  "The tests append 1000 elements once and resize a few times; reservations below the size, growth from partially filled or copied vectors and non-trivial members are untested.",
  [I+"soa_vector.hpp", I+"soa_grid.hpp", D+"load_functor.hpp"],
  [("growth and reservation", I+"soa_vector.hpp"), ("raw load of the old storage", D+"load_functor.hpp")],
  ["size, capacity, elements via get and via kernels"])

p("C11", "The aligned allocator returns aligned, disjoint, fully usable memory",
  "Every successful allocation is aligned to the requested boundary, holds the requested number of objects without overlapping any other live allocation or the allocator's own bookkeeping, keeps its contents until it is released, and is returned completely to the heap on release, in any order. Requests that cannot be satisfied, including ones whose byte size overflows, fail with an allocation error instead of returning a smaller block, and releasing a null pointer does nothing.",
  ["inputs", "histories"],
  "all alignments, element sizes, request sizes, heap addresses and release orders",
  "The tests check the alignment of a few allocations; heap placement, overlap, overflow and complete release depend on addresses and histories they do not control.",
  [I+"aligned_allocator.hpp"],
  [("over-allocation with a back pointer", I+"aligned_allocator.hpp")],
  ["returned addresses and contents", "the underlying heap calls"])

p("C12", "Vector arithmetic equals lane-wise scalar arithmetic on every ISA and width",
  "For every element type, vector width and instruction set, addition, subtraction, multiplication, division and square root, in binary, compound and scalar-left forms, compute in each lane what the scalar operation computes on that lane's operands, and no lane influences another. Double, and float apart from division, match the scalar IEEE result exactly; float division, and division by a square root in float, may deviate by a relative error of at most 0.1 percent for operands and results of moderate magnitude because of approximate reciprocals (on NEON and Xeon Phi also float square roots), and integer results equal the scalar integer result wherever that is representable, divisions truncating towards zero, except that integer square roots may be rounded to either neighbour.",
  ["inputs", "configurations"],
  "all operand values, element types float/double/int, widths 1-32, instruction sets scalar/SSE/SSE2/SSE4.1/AVX/AVX2/AVX-512, NEON and Xeon Phi",
  "The tests use small consecutive integers, two instruction sets and never random, negative, huge, denormal or lane-asymmetric data; the AVX-512, SSE2, AVX and scalar variants are not run at all.",
  [I+"short_vec.hpp"] + [D+"short_vec_%s.hpp" % s for s in ("scalar_float_4","scalar_double_8","scalar_int_16","sse_float_4","sse_double_2","sse_int_4","avx_float_8","avx_double_4","avx_int_8","avx512_float_16","avx512_double_8","avx512_int_16")],
  [("per-ISA operator implementations", D+"short_vec_*.hpp"), ("square-root proxies", D+"sqrt_reference.hpp")],
  ["stored lanes of every result"])

p("C13", "Vector comparisons, masks and blending agree with lane-wise scalar logic",
  "For every floating-point element type, width and instruction set (and for one-lane integer vectors), each comparison yields a mask that is set in exactly the lanes in which the scalar comparison holds, the any-test and lane count of a mask report exactly those lanes, and blending with that mask replaces exactly those lanes and keeps all others bit for bit. Lane extraction returns exactly the stored lane.",
  ["inputs", "configurations"],
  "all operand values including equal, signed-zero, infinite and NaN lanes, all lane patterns, types, widths and instruction sets",
  "The tests compare a few uniform or monotone vectors on two instruction sets; most lane patterns, NaN and mixed-sign masks and four of the six instruction sets are never seen.",
  [I+"short_vec.hpp", D+"short_vec_sse_float_8.hpp", D+"short_vec_avx_double_16.hpp", D+"short_vec_avx512_float_32.hpp", D+"short_vec_scalar_float_8.hpp"],
  [("comparison, any, blend, lane access", D+"short_vec_*.hpp"), ("mask helpers", I+"short_vec.hpp")],
  ["lanes selected by a blend", "any, lane count, lane values"])

p("C14", "Vector loads, stores, gathers and scatters touch exactly their lanes in memory",
  "For every element type, width and instruction set, unaligned, aligned and streaming loads and stores transfer exactly the consecutive lanes at the given address in order and bit for bit, and gather and scatter transfer lane k from or to base plus offset k for arbitrary, repeated or negative offsets, with later lanes winning on duplicates. No memory outside those lanes is read past or written, and the unaligned forms work at every element-aligned address.",
  ["inputs", "configurations"],
  "all addresses, alignments, offset patterns, types, widths and instruction sets",
  "The tests use one aligned buffer and ascending offsets on two instruction sets and cannot see overlong reads or writes.",
  [D+"short_vec_helpers.hpp", D+"short_vec_sse_float_4.hpp", D+"short_vec_avx_double_4.hpp", D+"short_vec_avx512_int_16.hpp", D+"short_vec_scalar_int_4.hpp", I+"short_vec.hpp"],
  [("load/store/gather/scatter implementations", D+"short_vec_*.hpp")],
  ["buffers placed against guard pages and guard bytes"])

p("C15", "Vectors can be built and inspected faithfully in every supported way",
  "For every element type, width and instruction set, a vector built from one scalar has that value in all lanes, one built from memory, from a list of lane values, from another vector or by copy has exactly those lanes in order, the default vector is all zero, and printing lists exactly the lanes in order. The width reported by the type and by its instances is the number of lanes.",
  ["inputs", "configurations"],
  "all values, construction paths, element types, widths and instruction sets",
  "The tests print and list-initialise only some widths on two instruction sets with small consecutive values.",
  [I+"short_vec.hpp", I+"short_vec_base.hpp", D+"short_vec_avx512_double_16.hpp", D+"short_vec_sse_int_32.hpp", D+"short_vec_scalar_double_32.hpp"],
  [("constructors and stream output", D+"short_vec_*.hpp")],
  ["stored lanes", "printed text"])

p("C16", "Streaming vectors compute and store the same values as ordinary vectors",
  "For every element type, width and instruction set, a streaming vector holds, computes, compares, converts and writes exactly the same lanes as the ordinary vector of that width; only the kind of store instruction differs. Every store form writes exactly its lanes to suitably aligned memory.",
  ["inputs", "configurations"],
  "all values, store forms, types, widths and instruction sets",
  "The tests run one expression per width with small values on two instruction sets.",
  [I+"streaming_short_vec.hpp", D+"streaming_short_vec_switch.hpp", D+"short_vec_sse_double_4.hpp", D+"short_vec_avx_float_16.hpp"],
  [("store forwarded to non-temporal store", I+"streaming_short_vec.hpp")],
  ["stored lanes and guard bytes"])

p("C17", "The loop peeler covers each iteration exactly once and stays in range",
  "For any start not below zero, any end (as long as the range rounded up to full vectors is representable in the counter type) and any vector width the peeled loop executes exactly the iterations from start up to but excluding end, each once and in ascending order, and the counter ends at the end. Full-width steps begin only at multiples of the width and never extend beyond the end, and fewer than one vector's worth of iterations is run one by one on each side.",
  ["inputs", "configurations"],
  "all start/end pairs incl. empty ranges and ranges within one vector, all widths, counter types, macro and function forms",
  "The tests run a few ranges longer than a vector; short ranges that end before the first aligned position are not tested.",
  [I+"loop_peeler.hpp", D+"sibling_short_vec_switch.hpp"],
  [("three-phase split into head, body, tail", I+"loop_peeler.hpp")],
  ["sequence of (width, position) events", "final counter"])

p("C18", "Registration metadata matches the registered members",
  "For any registered type the reported number of members, aggregated member size and member offsets equal those implied by the registered member list in order (array members counted with all their elements), offsets found through member pointers identify the right member even when several members share a type, and asking for a member that was not registered is refused with an invalid-argument error. Private members can be registered when the type grants access.",
  ["programs", "inputs"],
  "all registered types: member counts, types, array extents, order and unregistered members",
  "The tests register a few small types; long member lists, repeated types, arrays of equal type but different extent and every position in the list are not covered.",
  [I+"macros.hpp", D+"macros.hpp", D+"offset.hpp", I+"member_ptr_to_offset.hpp", I+"number_of_members.hpp", I+"aggregated_member_size.hpp", I+"preprocessor.hpp", D+"preprocessor.hpp"],
  [("per-member offset specialisations", D+"macros.hpp"), ("sequence preprocessing macros", D+"preprocessor.hpp")],
  ["metadata values", "exceptions", "actual placement of members in storage"])

p("C19", "Automatic vector type selection honours ISA, unrolling, cache size and alignment",
  "For any element type, unroll factor and instruction set the selected width is the unroll factor times the number of elements in one native register, the streaming flavour is selected exactly when the working set reaches the cache size estimate, and the selected type is usable. The alignment reported for any vector type suffices for its aligned and streaming memory operations and never exceeds what its instruction set's registers require.",
  ["configurations", "inputs"],
  "all element types, unroll factors, working set sizes, cache estimates and instruction sets",
  "The tests check a few sizes around the default cache estimate on two instruction sets, and never execute aligned operations at exactly the reported alignment.",
  [I+"estimate_optimum_short_vec_type.hpp", I+"ilp_to_arity.hpp", I+"alignment.hpp", I+"short_vec.hpp", D+"streaming_short_vec_switch.hpp"],
  [("compile-time selection", I+"estimate_optimum_short_vec_type.hpp"), ("alignment per strategy", I+"short_vec.hpp")],
  ["selected types", "faults of aligned accesses at reported alignment"])

p("C20", "Concurrent reads and disjoint kernel updates need no locking",
  "Any number of threads may concurrently read one container through its read-only operations (element reads, run reads, raw saves, kernels) and each obtains exactly the values a sequential reader would, without any data race. Threads whose kernels update disjoint cells of the same grid, and threads using different containers, do not interfere with each other.",
  ["schedules", "histories"],
  "all interleavings of concurrent readers and of kernels on disjoint regions",
  "All tests are single-threaded.",
  [I+"soa_grid.hpp", D+"staging_buffer.hpp", I+"soa_vector.hpp", I+"macros.hpp"],
  [("per-call transfer buffers for read-only operations", I+"soa_grid.hpp"), ("accessors created per kernel invocation", D+"macros.hpp")],
  ["race reports", "values read per thread"])

p("C21", "Failures are reported cleanly and leave containers usable",
  "When container storage cannot be allocated, when requested dimensions are unsupported, or when copying an element's member fails, the operation reports the failure as an exception and every involved container remains destructible and usable: refused dimensions leave a grid unchanged, a cell write or read that fails leaves all other cells unchanged, a growable array whose growth fails keeps all its elements, a grid or array that fails to be resized or assigned is left in a consistent (possibly empty) state that can be read and reused, and a failed construction leaks nothing. No failure leads to a double release, a leak or access to released memory.",
  ["fault_sequences", "histories"],
  "every allocation and member-copy point of every container operation failing",
  "The tests never make an allocation or a member copy fail and only check that a too-large resize throws.",
  [I+"soa_grid.hpp", I+"soa_vector.hpp", I+"soa_array.hpp", I+"aligned_allocator.hpp"],
  [("order of size selection, release and allocation in resize", I+"soa_grid.hpp"), ("growth into a new grid before swapping", I+"soa_vector.hpp")],
  ["exceptions", "container state after the failure", "lifetime events", "leaks at exit"])

p("C22", "Device-side grids behave like host grids and keep host and device memory apart",
  "A grid or array whose storage lives in device memory and that uses the device code paths returns for every operation (construction, cell and run reads and writes, broadcast, raw load and save, copy of buffers) the same values as the host grid does, for every supported size. Host code never dereferences device memory, device code never dereferences host memory, every launch covers exactly the requested cells, and all device memory is released.",
  ["histories", "inputs", "configurations"],
  "all operation histories on device grids and device arrays, all supported dimensions",
  "The device tests need a GPU and are not even built here.",
  [I+"cuda_array.hpp", I+"cuda_allocator.hpp", D+"generate_cuda_launch_config.hpp", D+"init_kernel.hpp", D+"set_instance_functor.hpp", D+"get_instance_functor.hpp", D+"load_functor.hpp", D+"save_functor.hpp", D+"construct_functor.hpp", D+"destroy_functor.hpp", D+"staging_buffer.hpp"],
  [("kernels and launch configuration", D+"generate_cuda_launch_config.hpp"), ("staging through device buffers", D+"staging_buffer.hpp")],
  ["values read back", "device heap events", "address class of every access"])

p("C23", "Vectorised kernels over grids compute the same result as plain scalar code",
  "A stencil, reduction or particle kernel written with grid accessors, vector types and the loop peeler produces for every grid size, region and instruction set the same cell values as the equivalent scalar loop over an ordinary array of structs, within the accuracy of the arithmetic used, and writes only the cells of its region.",
  ["inputs", "configurations", "programs"],
  "all grid sizes, sub-regions, vector widths, flavours (ordinary/streaming) and instruction sets",
  "The tests check the parts in isolation; the examples that combine them are benchmarks whose results are not checked.",
  [I+"soa_grid.hpp", I+"loop_peeler.hpp", I+"short_vec.hpp", I+"macros.hpp", I+"estimate_optimum_short_vec_type.hpp", I+"streaming_short_vec.hpp"],
  [("kernel callback with compile-time sizes", I+"api_traits.hpp"), ("vector load/store on member rows", D+"short_vec_*.hpp")],
  ["all cells of the target grid and its padding"])

p("C24", "Benchmark reports are complete and true, on any machine description",
  "A benchmark evaluation runs exactly the benchmarks whose family contains the requested name, once each and with the given dimensions, and prints for each finished measurement, unless output is switched off, one line whose fields match the printed header in number and order and give the revision, the UTC date of the run, host, device, order, family, species, all dimensions, the measured performance and its unit; a failed benchmark's exception reaches the caller and prints nothing. Naming the device never fails: a CPU benchmark reports the CPU type and name that likwid-topology prints, else the first model or cpu name in the kernel's CPU description, else an unknown CPU, whatever these sources contain or lack, as one line without padding and without leaving descriptors or processes behind; a GPU benchmark reports the current device's name. Elapsed times are differences of the time of day in seconds.",
  ["inputs", "configurations", "environments"],
  "all benchmark names, families, dimensions and outcomes, all outputs of likwid-topology and contents of /proc/cpuinfo",
  "The testbed is not tested at all, and a machine only ever shows its own CPU description.",
  [I+"testbed/evaluate.hpp", I+"testbed/cpu_benchmark.hpp", I+"testbed/benchmark.hpp", I+"testbed/gpu_benchmark.hpp"],
  [("selection and report line", I+"testbed/evaluate.hpp"), ("parsing of CPU descriptions", I+"testbed/cpu_benchmark.hpp")],
  ["standard output", "returned names", "open descriptors and children"])

p("C25", "The example programs' library versions compute what their plain versions do",
  "The kernels of the Jacobi, Gauss and lattice Boltzmann examples and of the performance tests that are written with the library's grids, accessors, vectors and loop peeler compute for every grid size, initial content, number of steps and number of threads the same values in every cell as the plain versions of the same kernels, leave the boundary and the source grid untouched, and count the same pairs of particles; the particle kernels of the smoothed particle hydrodynamics example compute for every cloud of distinct particles the same densities and accelerations as the plain C ones, up to rounding and the instruction set's approximate division, and change nothing else; the Jacobi and Gauss programs run to completion for all positive dimensions a grid supports and step counts, pass their own consistency checks and refuse wrong arguments.",
  ["inputs", "configurations", "programs"],
  "all grid sizes, contents, particle clouds, step and thread counts, program arguments",
  "The examples are not run by the tests, and on their own they only compare the sum over a constant block of cells.",
  ["examples/jacobi/main.cpp", "examples/gauss/main.cpp", "examples/performance_tests/main.cpp", "examples/smoothed_particle_hydrodynamics/kernels.hpp", "examples/lbm/cell.h", I+"loop_peeler.hpp", I+"soa_grid.hpp", I+"estimate_optimum_short_vec_type.hpp"],
  [("stencil kernels", "examples/jacobi/main.cpp"), ("filter kernel", "examples/gauss/main.cpp"), ("pair counting", "examples/performance_tests/main.cpp"), ("particle interactions", "examples/smoothed_particle_hydrodynamics/kernels.hpp"), ("lattice Boltzmann kernel", "examples/lbm/cell.h")],
  ["all cells of both grids", "exit status and output"])

p("C26", "The preprocessor's list operations are right for every supported list length",
  "For every list of up to 51 parenthesised elements, numbers, names or lists themselves: LIBFLATARRAY_SIZE gives its length, LIBFLATARRAY_ELEM the element at any position, LIBFLATARRAY_DEQUEUE the list without its first element, LIBFLATARRAY_FOR_EACH instantiates the given macro exactly once per element, in order, with the element's index, the given argument and the element, and LIBFLATARRAY_IF_SHORTER selects its first alternative exactly if the list has fewer elements than any given length up to 50.",
  ["inputs"],
  "all lists of 0 to 51 elements, all positions and all lengths compared with",
  "The tests use lists of 0, 1, 4 and 5 elements, while registered types and size lists may have ten times as many.",
  [I+"preprocessor.hpp", D+"preprocessor.hpp"],
  [("list operations", I+"preprocessor.hpp"), ("one macro per position", D+"preprocessor.hpp")],
  ["the text the operations expand to"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
