#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
C = "core/include/vecmem/"
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or []}})

add("P01", "Copying a 1D vector transfers exactly the source's elements",
 "For every 1D source (vector, array, fixed or resizable buffer, view) and every 1D target with sufficient capacity, a copy leaves the target's first size(source) elements equal to the source's, leaves the source and every target byte past those elements unchanged, and, if the target is resizable, makes its size equal to size(source) - also for an empty source. If the target's capacity is too small, std::length_error is thrown and the target keeps its size and contents. Copying into a host vector resizes it to the source's size, creating a buffer from a view gives a buffer of exactly that size, and the reported size of a view is its current number of elements.",
 ["inputs", "histories"], "all element types/values, sizes 0..N, capacities, resizable/fixed combinations, copy type hints, and chains of copies",
 "The copy tests use a handful of fixed 6..10-element vectors with exactly matching capacities; empty sources into non-empty targets, spare capacity and too small targets are not covered.",
 [C+"utils/copy.hpp", C+"utils/impl/copy.ipp", "core/src/utils/copy.cpp"],
 [("get_size / copy_view_impl (1D)", C+"utils/impl/copy.ipp"), ("do_copy", "core/src/utils/copy.cpp")],
 ["vecmem::copy::operator()", "vecmem::copy::to", "vecmem::copy::get_size"])

add("P02", "Copying a jagged vector transfers exactly every row",
 "For every jagged source and every jagged target with the same number of rows and row capacities at least the source's row sizes, a copy leaves each target row's leading elements equal to the source row and, if the target is resizable, each row's size equal to the source row's size, without touching the source or anything outside the target's rows - however either side's rows are laid out in memory. Copies into host jagged vectors and into newly created buffers reproduce the row structure exactly, and reading or setting row sizes agrees with the rows' actual sizes. A source with more rows, or a row that does not fit, gives std::length_error.",
 ["inputs", "histories"], "all row structures (including empty rows and no rows), contiguous and scattered layouts, capacity patterns, resizable and fixed, host-only and split host/device layouts",
 "Tests copy two or three fixed jagged shapes; the contiguous fast path, mismatching capacities and interleaved empty rows are reachable only by particular shape pairs.",
 [C+"utils/impl/copy.ipp", C+"containers/details/resize_jagged_vector.hpp", C+"containers/impl/jagged_vector_buffer.ipp"],
 [("copy_view_impl (jagged), is_contiguous, copy_views_contiguous_impl, copy_views_impl", C+"utils/impl/copy.ipp"), ("get_sizes_impl / set_sizes", C+"utils/impl/copy.ipp")],
 ["vecmem::copy::operator()", "vecmem::copy::to", "vecmem::copy::get_sizes", "vecmem::copy::set_sizes"])

add("P03", "Copying an SoA container transfers every variable exactly",
 "For every SoA container schema made of scalars, vectors and jagged vectors, copying between host containers, fixed buffers and resizable buffers (in any chain) delivers every scalar, every vector element and every jagged row of the source in the target, with the target's size(s) equal to the source's whenever the target is a host container or resizable. A target that cannot hold the source is refused with std::length_error rather than filled wrongly.",
 ["inputs", "histories", "configurations"], "several schemas, all sizes/row capacities, all pairs of host / fixed buffer / resizable buffer on either side, with and without a separate host layout",
 "The SoA tests use two schemas with one fixed content and matching capacities; the single-block fast path is only seen with identical layouts.",
 [C+"utils/impl/copy.ipp", C+"edm/impl/buffer.ipp", C+"edm/impl/host.ipp"],
 [("operator() for edm views: simple path / copy_payload_impl / copy_sizes_impl / resize_impl", C+"utils/impl/copy.ipp")],
 ["vecmem::copy::operator() on edm::view", "vecmem::copy::get_size(edm::view)"])

add("P04", "setup() empties containers and memset() fills exactly their payload",
 "After setup() every resizable 1D, jagged or SoA container reports size zero (every row for jagged ones), fixed-size ones keep their size, and a container with a separate host layout becomes usable through its device-side layout. memset() sets every payload byte of the container - all of its capacity, every row, every SoA variable including scalars - to the given byte and changes nothing else: no size, no layout and no neighbouring memory.",
 ["inputs", "configurations"], "all container kinds, capacities (including 0 and empty rows), byte values, contiguous and scattered jagged layouts",
 "Tests memset one fixed shape per container and look only at the elements, never at the surrounding bytes.",
 [C+"utils/impl/copy.ipp", C+"edm/impl/buffer.ipp"],
 [("copy::setup", C+"utils/impl/copy.ipp"), ("copy::memset / memset_impl", C+"utils/impl/copy.ipp")],
 ["vecmem::copy::setup", "vecmem::copy::memset"])

add("P05", "Copy backends: no direct device access, truthful directions, async-safe",
 "Whatever is set up, copied, resized or cleared, and whatever buffers are constructed, moved or destroyed, the host code never reads or writes memory that came from a device-only resource except through the copy object's overridable raw copy and fill operations. Every raw copy carries a direction that is either \"unknown\" or true for the memory its two ends live in. With a backend that executes raw operations late (in order, when an event is waited for), results after waiting for the returned event are the same as with immediate execution, and no raw operation refers to memory that is already dead.",
 ["schedules", "inputs", "configurations"], "all container kinds and copy directions, with the device memory protected, and all delays of raw operations up to the waits",
 "The core tests only ever use host memory with the synchronous POSIX copy; the CUDA/HIP/SYCL backends that would expose a violation are not built here.",
 [C+"utils/impl/copy.ipp", C+"containers/impl/vector_buffer.ipp", C+"containers/impl/jagged_vector_buffer.ipp", C+"edm/details/buffer_traits.hpp"],
 [("do_copy / do_memset / create_event virtuals", C+"utils/copy.hpp"), ("host_ptr vs ptr layouts", C+"containers/data/jagged_vector_buffer.hpp")],
 ["do_copy", "do_memset", "create_event"])

add("P06", "A device vector behaves like a capacity-bounded std::vector",
 "For every sequence of operations on a device vector over a resizable buffer that respects its capacity, size, every element, iteration in both directions and every return value agree with std::vector doing the same, elements are constructed and destroyed exactly as often as they enter and leave the vector, and no memory outside the buffer's payload and size is written. Every device vector made from the same view sees the same contents, and one over a fixed-size view has size equal to capacity.",
 ["histories", "inputs"], "all operation sequences (push/emplace/bulk append/pop/assign/resize/clear/element writes), capacities, and element types including ones with non-trivial lifetime",
 "Tests run one hard-coded sequence of modifiers on one buffer of ints.",
 [C+"containers/device_vector.hpp", C+"containers/impl/device_vector.ipp"],
 [("construct / destruct, size counter updates", C+"containers/impl/device_vector.ipp")],
 ["vecmem::device_vector"])

add("P07", "Concurrent appends each get their own slot and none is lost",
 "When any number of threads append to the same resizable device vector or SoA device container - single, emplaced, bulk and default-constructed appends, in any interleaving, within the capacity - every append returns a position (range) disjoint from all others, the positions together are exactly the range between old and new size, each appended value ends up at the position that was returned for it, and previously stored elements are unchanged.",
 ["schedules"], "all interleavings of 2..4 threads with 1..4 appends each at the granularity of individual shared memory accesses",
 "The core tests are single threaded; real-thread tests would sample very few of the interleavings.",
 [C+"containers/impl/device_vector.ipp", C+"edm/impl/device.ipp", C+"memory/impl/posix_device_atomic_ref.ipp"],
 [("device_atomic_ref::fetch_add on the size", C+"containers/impl/device_vector.ipp"), ("push_back_default", C+"edm/impl/device.ipp")],
 ["push_back", "emplace_back", "bulk_append", "bulk_append_implicit", "push_back_default"])

add("P08", "A static vector behaves like a capacity-bounded std::vector",
 "For every sequence of static vector operations that stays within its capacity (construct, copy, assign, insert, emplace, erase, push/pop, resize, clear), size, elements, iteration order and returned iterators agree with std::vector doing the same, every element that was constructed is destroyed exactly once and nothing else is, and all storage is inside the object and suitably aligned.",
 ["histories", "inputs"], "all operation sequences over several capacities and element types (trivial, lifetime-tracked, over-aligned), including inserting a copy of one of the vector's own elements",
 "Tests use short fixed sequences of ints, and never count element lifetimes.",
 [C+"containers/static_vector.hpp", C+"containers/impl/static_vector.ipp", C+"containers/details/static_vector_traits.hpp"],
 [("insert / erase element shifting, construct/destruct helpers", C+"containers/impl/static_vector.ipp")],
 ["vecmem::static_vector"])

add("P09", "Fixed-size arrays behave like std::array",
 "The runtime-sized host array, the static array and the device array behave like std::array of the same length: element access by index, front, back, data and forward/reverse iteration all refer to the same elements in order, fill sets every element, static arrays compare equal exactly when all elements do, and checked access on the host types throws std::out_of_range for every index at or past the size (and front/back on an empty host array), otherwise returns the element. The host array takes its memory only from the resource it was given, constructs each element once, and gives everything back.",
 ["inputs"], "all lengths (including 0), values, indices and element types",
 "Tests look at one or two lengths and a few indices.",
 [C+"containers/array.hpp", C+"containers/impl/array.ipp", C+"containers/impl/static_array.ipp", C+"containers/impl/device_array.ipp"],
 [("at() bounds checks", C+"containers/impl/array.ipp"), ("element storage", C+"containers/details/static_array_traits.hpp")],
 ["vecmem::array", "vecmem::static_array", "vecmem::device_array"])

add("P10", "Views and device containers alias the data they were made from",
 "A view of a (jagged) vector, array or buffer, any const or non-const copy or conversion of it, and any (jagged) device vector made from it describe the same memory with the same sizes and capacities: a write through one is seen through all, and index access, front/back, random-access iterator arithmetic and reverse iterators all reach row i / element j of the original. Comparison of views and iterators reflects whether they denote the same thing, and a jagged vector with only empty rows is not empty.",
 ["inputs", "histories"], "all shapes, random iterator walks, random access paths, all conversion chains",
 "Tests check one 6-row jagged shape with a few iterator steps.",
 [C+"containers/impl/vector_view.ipp", C+"containers/impl/jagged_vector_view.ipp", C+"containers/impl/jagged_vector.ipp", C+"containers/impl/jagged_device_vector.ipp", C+"containers/impl/jagged_device_vector_iterator.ipp", C+"containers/impl/reverse_iterator.ipp"],
 [("get_data", C+"containers/impl/jagged_vector.ipp"), ("iterator arithmetic", C+"containers/impl/jagged_device_vector_iterator.ipp")],
 ["vecmem::get_data", "vecmem::jagged_device_vector"])

add("P11", "Buffers place all their arrays disjointly, aligned and inside their memory",
 "For every requested set of capacities, a 1D, jagged or SoA buffer describes exactly those capacities and lays out all of its arrays (sizes, layout descriptors, every variable and row) so that they are pairwise disjoint, aligned for their type, and entirely inside memory obtained from the resource it was given (descriptors meant for the host inside memory of the host resource when one is given). Everything obtained is given back exactly once when the buffer dies, and moving a buffer keeps its contents and view valid.",
 ["inputs", "configurations"], "all capacity vectors (including empty and all-zero), element types of every alignment, fixed and resizable, one or two resources, moves",
 "Tests construct a few buffers on the permissive host heap, where an overlap or an overrun by a few bytes goes unnoticed.",
 [C+"containers/impl/aligned_multiple_placement.ipp", C+"containers/impl/vector_buffer.ipp", C+"containers/impl/jagged_vector_buffer.ipp", C+"edm/impl/buffer.ipp", C+"edm/details/buffer_traits.hpp"],
 [("aligned_multiple_placement", C+"containers/impl/aligned_multiple_placement.ipp"), ("find_payload_view / find_layout_view", C+"edm/details/buffer_traits.hpp")],
 ["vector_buffer", "jagged_vector_buffer", "edm::buffer"])

add("P12", "SoA containers agree with an array of structs under every access path",
 "An SoA host or device container holds, for each index, one element of every vector variable (one row of every jagged variable) plus one value of every scalar, and reading or writing element i through a variable, through an element proxy (const or not), or through a device container made from the host container's or buffer's view always reaches the same value. Resizing or reserving a host container acts on every non-scalar variable alike, preserves existing elements, and leaves all memory coming from the given resource; default appends to a device container add exactly one value-initialised element to every vector variable and leave scalars alone. Checked access on a host container at or past its size throws std::out_of_range, and inconsistent variable sizes are reported as std::length_error.",
 ["histories", "inputs"], "several schemas, all operation sequences, all access paths, fixed and resizable buffers",
 "Tests fill one 10-element container in one fixed order.",
 [C+"edm/impl/host.ipp", C+"edm/impl/device.ipp", C+"edm/impl/proxy.ipp", C+"edm/impl/view.ipp", C+"edm/details/proxy_traits.hpp", C+"edm/details/host_traits.hpp"],
 [("proxy_data_creator", C+"edm/details/proxy_traits.hpp"), ("host_resize / get_host_size", C+"edm/details/host_traits.hpp")],
 ["edm::host", "edm::device", "edm::proxy", "edm::view"])

add("P13", "A tuple keeps every element's value and identity",
 "A tuple built from any values returns for each index exactly the value given for that position, elements are independent of each other, references tied into a tuple refer to the original objects, and copying, converting or concatenating tuples preserves all values in order and leaves the originals intact.",
 ["inputs"], "all values, element types (including references, move-only heads and nested types) and tuple lengths 1..6",
 "Tests check a couple of tuples with fixed values.",
 [C+"utils/tuple.hpp", C+"utils/impl/tuple.ipp"],
 [("recursive get", C+"utils/impl/tuple.ipp"), ("converting/concatenating constructors", C+"utils/tuple.hpp")],
 ["vecmem::tuple", "vecmem::get", "vecmem::tie", "vecmem::make_tuple"])

add("P14", "Every stack of memory resources hands out valid, exclusive storage",
 "For every composition of the library's memory resources over an upstream and every sequence of allocations and deallocations, each successful allocation is non-null for a non-zero size, aligned as requested (up to the fundamental alignment where a resource only promises that), lies completely inside storage currently obtained from the upstream, and does not overlap any other live allocation. Its contents are never changed by the resource until it is deallocated.",
 ["histories", "configurations"], "random stacks (depth 0..4) of all resources with random parameters and random allocation histories of sizes 0..several MiB",
 "The stress test uses one fixed allocation pattern on a few fixed stacks and does not check overlap, containment or contents.",
 ["core/src/memory"],
 [("do_allocate / do_deallocate of every resource", "core/src/memory")],
 ["memory_resource::allocate/deallocate"])

add("P15", "Arena: blocks never overlap, freed space is reused, the maximum is kept",
 "Over every allocation history an arena's live blocks are disjoint, inside its upstream storage and at fundamental alignment, and the total obtained from upstream never exceeds the configured maximum. A request of any size that fits succeeds, one that would exceed the maximum or the address space fails with std::bad_alloc and leaves the arena usable, and after everything is freed the neighbouring pieces have merged again so that the arena serves the original block (up to its largest upstream piece below the superblock threshold) without growing. On destruction each upstream piece is returned once with its original size, even when live blocks remain and even when upstream pieces happen to be adjacent.",
 ["histories", "inputs"], "all histories of sizes around the 256-byte rounding, the 256 KiB superblock threshold and the initial size, all deallocation orders, adjacent and separated upstream pieces",
 "Tests use one initial size far larger than needed on the host heap, where adjacent superblocks and overlaps are invisible.",
 ["core/src/memory/details/arena_memory_resource_impl.cpp", C+"memory/arena_memory_resource.hpp"],
 [("first_fit / coalesce_block / expand_arena", "core/src/memory/details/arena_memory_resource_impl.cpp")],
 ["arena_memory_resource::allocate/deallocate", "upstream calls"])

add("P16", "Binary pages: buddy pages never overlap and fully merge again",
 "Over every history, a binary page resource serves each request from pages that are disjoint from all other live allocations and inside upstream pieces whose sizes are powers of two. Freed pages are merged with their free buddies, so that once everything allocated from a piece is freed it can serve any request of a 256th to all of its size without a new upstream allocation, and a request is only passed upstream when no piece that can be divided to its size has a sufficiently large free page. All pieces are returned at destruction, and impossible sizes fail with std::bad_alloc.",
 ["histories", "inputs"], "all histories with sizes around powers of two, from 1 byte over the minimum page (256 B) and minimum superpage (1 MiB) up to several MiB and near the top of the size range",
 "The stress test never looks at upstream traffic, so a missing merge or a leak of pages stays invisible.",
 ["core/src/memory/details/binary_page_memory_resource_impl.cpp", "core/src/utils/integer_math.hpp"],
 [("find_free_page / split / unsplit", "core/src/memory/details/binary_page_memory_resource_impl.cpp"), ("round_up / clzl", "core/src/utils/integer_math.hpp")],
 ["binary_page_memory_resource::allocate/deallocate", "upstream calls"])

add("P17", "Pool: options are validated and obeyed, freed blocks are reused",
 "A pool resource refuses inconsistent options with std::invalid_argument and with accepted options obeys them over every history: chunks requested from upstream stay within the configured block and byte limits and alignment, requests beyond the largest block size or alignment go upstream individually, and a freed block is reused before upstream is asked for the same bucket again. Cached oversized blocks are reused only for requests they can hold with their alignment and within the cutoff factors, and with caching off they go back upstream at once. All blocks are disjoint, sufficiently aligned, and everything is returned upstream exactly once at destruction.",
 ["histories", "configurations"], "random option sets (valid and invalid) and random histories of sizes/alignments around the bucket and oversize limits",
 "Tests use only the default options.",
 ["core/src/memory/details/pool_memory_resource_impl.cpp", C+"memory/pool_memory_resource.hpp"],
 [("check_valid", "core/src/memory/details/pool_memory_resource_impl.cpp"), ("bucket free lists, oversized cache", "core/src/memory/details/pool_memory_resource_impl.cpp")],
 ["pool_memory_resource::allocate/deallocate", "upstream calls"])

add("P18", "Contiguous resource: one upstream block, handed out in address order",
 "A contiguous resource obtains exactly one block of the requested size from upstream at construction, returns it at destruction, and in between makes no upstream call. Successive allocations lie inside that block at the requested alignment, in strictly increasing, non-overlapping address order with no gap beyond what alignment needs, deallocation never makes space available again, and a request that does not fit in what is left fails with std::bad_alloc without using up any space.",
 ["histories", "inputs"], "all block sizes, request sizes (including ones that fit exactly, overshoot by one byte, or overflow) and alignments",
 "The single test allocates a few vectors and compares their distance.",
 ["core/src/memory/details/contiguous_memory_resource_impl.cpp", C+"memory/contiguous_memory_resource.hpp"],
 [("std::align based bump pointer", "core/src/memory/details/contiguous_memory_resource_impl.cpp")],
 ["contiguous_memory_resource::allocate", "upstream calls"])

add("P19", "Choosing resources route each block to one owner and free it there",
 "The choice resource allocates from exactly the resource its function selects for that size and alignment, the coalescing resource from the first of its resources, in order, that does not fail, and the conditional resource only when its predicate accepts the request; when none can serve the request std::bad_alloc is thrown. Every deallocation reaches exactly the resource that provided the block, once and with the original size and alignment, however allocations and deallocations are interleaved and whatever the functions would answer by then.",
 ["histories", "fault_sequences"], "random routing functions (also stateful ones), random failing upstreams, random interleavings of allocation and deallocation",
 "Tests use constant or size-threshold functions and immediately paired allocate/deallocate.",
 ["core/src/memory/details/choice_memory_resource_impl.cpp", "core/src/memory/details/coalescing_memory_resource_impl.cpp", "core/src/memory/details/conditional_memory_resource_impl.cpp"],
 [("pointer to owner maps", "core/src/memory/details")],
 ["upstream calls"])

add("P20", "The debug resource accepts correct use and catches every misuse",
 "For every history of correct use over a correct upstream, the debug resource behaves like its upstream and never complains. It throws std::logic_error when a deallocation names a pointer that is not currently allocated, or a size or alignment different from the allocation's, and when its upstream hands out a block that overlaps a live one; after a detected misuse the live allocations it knows remain valid.",
 ["histories", "fault_sequences"], "random correct histories, random single misuse injected at a random point, random faulty upstreams (blocks overlapping live ones by any amount)",
 "Tests exercise one example of each misuse.",
 ["core/src/memory/details/debug_memory_resource_impl.cpp", C+"memory/debug_memory_resource.hpp"],
 [("allocation map and overlap check", "core/src/memory/details/debug_memory_resource_impl.cpp")],
 ["debug_memory_resource::allocate/deallocate"])

add("P21", "Instrumentation and memory monitoring report exactly what happened",
 "The instrumenting resource passes every request unchanged to its upstream and its result back, and records in order one event per allocation and deallocation with the true kind, size, alignment and address - also for allocations that fail, which still fail for the caller - and calls every registered hook once per event in registration order at the documented moment. A memory monitor attached to it reports at every point the total bytes allocated, the bytes currently outstanding, the average allocation size and the largest outstanding amount ever reached as computed from that history, including when nothing was allocated yet.",
 ["histories", "fault_sequences"], "random histories with random upstream failures, random sets of hooks added at random moments",
 "Tests check a few events of one short run.",
 ["core/src/memory/details/instrumenting_memory_resource_impl.cpp", "core/src/utils/memory_monitor.cpp", C+"memory/instrumenting_memory_resource.hpp", C+"utils/memory_monitor.hpp"],
 [("event list, pre/post hooks", "core/src/memory/details/instrumenting_memory_resource_impl.cpp")],
 ["instrumenting_memory_resource::get_events", "memory_monitor getters"])

add("P22", "A failing upstream never corrupts, leaks or loses blocks",
 "If the upstream of any resource (or stack of resources), buffer or container throws std::bad_alloc at any call, the exception reaches the caller as std::bad_alloc, all blocks that were live stay valid, disjoint and deallocatable, later requests succeed as soon as the upstream can serve them, and when everything is destroyed the upstream has got back everything it ever handed out.",
 ["fault_sequences", "histories"], "all positions of upstream failures (single, repeated, permanent) in random histories over every resource, stack, buffer kind and host container",
 "No test injects an upstream failure into anything but the coalescing resource.",
 ["core/src/memory", C+"containers/impl", C+"memory/unique_ptr.hpp", C+"edm/impl/buffer.ipp"],
 [("ordering of bookkeeping and upstream calls", "core/src/memory/details"), ("unique_alloc_ptr ownership", C+"memory/unique_ptr.hpp")],
 ["upstream allocate/deallocate"])

add("P23", "Resources balance their upstream exactly, also across moves",
 "Over every life of a memory resource object - use, move construction, move assignment onto a used object, destruction with or without blocks still live - each block obtained from upstream is returned exactly once with the size and alignment it was requested with, never while a block handed out from it is still live in a still existing resource, and at the latest when its owner is destroyed (for caching resources) or when the user frees it (for forwarding ones). After a move the new object serves and frees everything the old one handed out.",
 ["histories"], "all resources, random histories with moves at random points and random outstanding blocks at destruction",
 "Tests construct resources once as globals and never move them or look at upstream traffic.",
 ["core/src/memory", C+"memory/details/memory_resource_impl.hpp"],
 [("move constructors/assignments holding the implementation object", "core/src/memory"), ("destructors", "core/src/memory/details")],
 ["upstream allocate/deallocate"])

add("P24", "The synchronized resource serialises all upstream access",
 "With any number of threads allocating and deallocating through the same synchronized resource (or through its moved successor), no two upstream operations ever overlap in time, every thread gets valid exclusive blocks, every operation completes (no deadlock, also when the upstream throws), and the sequence of upstream operations is an interleaving of the threads' operations with unchanged arguments and results.",
 ["schedules", "fault_sequences"], "all interleavings of 2..4 threads with a few operations each, with upstream failures at random calls",
 "The existing tests use the resource from a single thread.",
 ["core/src/memory/synchronized_memory_resource.cpp", "core/src/memory/details/synchronized_memory_resource_impl.cpp", C+"memory/synchronized_memory_resource.hpp"],
 [("mutex lock guards", "core/src/memory")],
 ["upstream calls"])

add("P25", "Allocators and host vectors use exactly the resource they were given",
 "All memory a polymorphic allocator, host vector or jagged vector (including all inner vectors, after growth, copy, move and swap) uses comes from and returns to the memory resource it was created with, in requests of the element count times the element size at the element type's alignment. Objects created through the allocator are constructed once with the given arguments, at suitably aligned addresses, and are destroyed once and their memory returned when deleted; if a constructor throws, the memory is returned and the exception propagates.",
 ["histories", "fault_sequences"], "random container histories over several element types and resources, constructor failures at random positions",
 "Tests check that a vector works, not where its memory comes from nor what happens on exceptions.",
 [C+"memory/allocator.hpp", C+"memory/impl/allocator.ipp", C+"memory/polymorphic_allocator.hpp", C+"containers/vector.hpp", C+"containers/jagged_vector.hpp"],
 [("allocator::new_object / delete_object", C+"memory/impl/allocator.ipp"), ("polymorphic_allocator propagation", C+"memory/polymorphic_allocator.hpp")],
 ["memory_resource traffic"])

add("P26", "Unique pointers manage memory and object lifetimes exactly once",
 "The unique-pointer makers (single objects, bounded-size arrays, raw allocations) obtain one suitably aligned block of sufficient size from the given resource, construct exactly the requested number of elements with the given arguments (raw allocations construct nothing), and when the pointer is reset, reassigned, moved away or destroyed each element is destroyed exactly once and the block goes back to the same resource with the size and alignment it was requested with. If the resource or a constructor throws, already built elements are destroyed, the block is returned, and the exception propagates.",
 ["inputs", "histories", "fault_sequences"], "all array lengths (including 0), element types of every alignment, constructor failures at every position, random histories of moves/resets/releases",
 "Tests create a few pointers to ints and check values.",
 [C+"memory/unique_ptr.hpp", C+"memory/details/unique_obj_deleter.hpp", C+"memory/details/unique_alloc_deleter.hpp"],
 [("deleters remembering resource, size, alignment", C+"memory/details"), ("make_unique_obj / make_unique_alloc", C+"memory/unique_ptr.hpp")],
 ["memory_resource traffic", "object lifetimes"])

add("P27", "Atomic references perform every operation atomically and correctly",
 "For every sequence of operations, an atomic reference returns and stores exactly what the corresponding plain arithmetic, bitwise, exchange or compare-exchange operation would - with wrap-around at the type's limits - on the referenced object and nothing else, compare-exchange reporting failure with the observed value. Under concurrent use of vecmem::device_atomic_ref from several threads the outcome of every schedule is that of some sequential order of the operations, and every operation orders memory at least as strongly as the (given or default) memory order promises: whoever sees a value stored with release through an acquiring operation also sees what was written before it. (vecmem::atomic and the dummy implementation are documented as not atomic on the host; they are held to the single-threaded part, where no signed overflow happens.) The implementations used in CUDA, HIP and SYCL device code (of device_atomic_ref and of vecmem::atomic) do the same with the atomic functions of these languages, leaving aside memory orders, which they do not promise.",
 ["schedules", "inputs"], "all operations, operand values including extremes, memory orders, integer types, the available implementations, and interleavings of 2..3 threads",
 "Tests execute each operation once on small values in one thread.",
 [C+"memory/atomic.hpp", C+"memory/impl/atomic.ipp", C+"memory/impl/posix_device_atomic_ref.ipp", C+"memory/impl/dummy_device_atomic_ref.ipp", C+"memory/device_atomic_ref.hpp", C+"memory/impl/cuda_device_atomic_ref.ipp", C+"memory/impl/sycl_custom_device_atomic_ref.ipp", C+"memory/details/hip_device_atomic_ref.hpp", C+"memory/details/sycl_builtin_device_atomic_ref.hpp"],
 [("__atomic builtins", C+"memory/impl/posix_device_atomic_ref.ipp")],
 ["vecmem::atomic", "vecmem::device_atomic_ref"])

add("P28", "Resource equality is sound; host, identity and terminal keep their contract",
 "If two memory resources compare equal, memory allocated from one can be deallocated through the other, and comparison is reflexive, and symmetric between resources of the same type (leaving aside that a synchronized resource, wherever it is nested, also counts itself equal to its own upstream). The host resource serves every size at every power-of-two alignment or fails with std::bad_alloc (also for sizes near the top of the size range), the identity resource forwards every call unchanged to its upstream, the terminal resource fails every non-zero request with std::bad_alloc, and every other resource returns null for a zero-size request without taking storage from upstream and ignores null deallocations (or leaves both to its upstream).",
 ["inputs", "configurations"], "all pairs of differently and equally built resources, all sizes (0, small, huge) and alignments up to 64 KiB",
 "Tests compare a few resources with themselves and allocate ordinary sizes.",
 ["core/src/memory/details/memory_resource_base.cpp", "core/src/memory/host_memory_resource.cpp", "core/src/memory/identity_memory_resource.cpp", "core/src/memory/terminal_memory_resource.cpp", "core/src/memory/synchronized_memory_resource.cpp"],
 [("do_is_equal overrides", "core/src/memory"), ("aligned_alloc size rounding", "core/src/memory/host_memory_resource.cpp")],
 ["memory_resource::is_equal", "allocate/deallocate"])

add("P29", "Back-end memory resources use the right memory, device, and errors",
 "Each memory resource of the CUDA, HIP and SYCL back ends answers a request with one new block of the kind it stands for (device, pinned host, managed/shared) from the runtime of its back end, on the device (or for the queue) it was made for whatever device is the current one, and leaves the current device as it was; zero-size requests are answered with null, null is ignored on deallocation; every block goes back exactly once, through the matching call, with the right device selected; resources that compare equal can take back each other's blocks, and equally made ones compare equal; a failing call of the runtime is reported by an exception and leaks nothing.",
 ["histories", "configurations", "fault_sequences"], "all kinds of resources, 0 to 3 devices, any current device at any time, failures of any runtime call",
 "The repository's tests for them need the accelerators, and look at one device and working calls only.",
 ["cuda/src/memory/device_memory_resource.cpp", "cuda/src/memory/managed_memory_resource.cpp", "cuda/src/memory/host_memory_resource.cpp", "hip/src/memory/device_memory_resource.cpp", "sycl/src/memory/device_memory_resource.sycl", "sycl/src/memory/memory_resource_base.sycl"],
 [("select_device / run_on_device around every call", "cuda/src/utils/select_device.cpp"), ("error check macros", "cuda/src/utils/cuda_error_handling.hpp")],
 ["runtime calls", "current device", "exceptions"])

add("P30", "Back-end copies do what the host copy does, and their events cover it",
 "The copy classes of the CUDA, HIP and SYCL back ends satisfy the same guarantees as vecmem::copy for containers in host and device memory (right elements, sizes and layouts; nothing else changed; no direct access to device memory): the synchronous ones have done everything when they return, the asynchronous ones issue their raw operations into the stream or queue they were given, on whichever device it is, and everything an operation does is done when its event was waited for, or dropped (which waits), or when the stream was synchronized after the event was ignored. Failing runtime calls are reported by exceptions, no later than by the wait, and no event or stream is leaked. The library itself never drops an event of its own copy operations without waiting.",
 ["histories", "schedules", "fault_sequences"], "all copy operations and containers, streams of any device, operations run late or (for out-of-order queues) in any order within one call, failures of any runtime call",
 "The repository's tests for them need the accelerators, and asynchronous operations usually finish in time there.",
 ["cuda/src/utils/cuda/copy.cpp", "cuda/src/utils/cuda/async_copy.cpp", "hip/src/utils/hip/copy.cpp", "sycl/src/utils/sycl/copy.sycl", "sycl/src/utils/sycl/async_copy.sycl", C+"utils/impl/copy.ipp"],
 [("create_event / cuda_event / sycl_event", "cuda/src/utils/cuda/async_copy.cpp"), ("collected SYCL events", "sycl/src/utils/sycl/async_copy.sycl")],
 ["contents of containers", "runtime calls", "events"])

add("P31", "Stream and queue wrappers keep their stream alive as long as needed",
 "A CUDA stream wrapper or SYCL queue wrapper that was default-made or made for a device owns one new stream or queue on that (or the current) device; copies and moves of it, and copy objects and memory resources made from it, stand for the same stream and share in its ownership, so that the stream exists exactly as long as any of them does, and is destroyed exactly once, then; wrappers around existing streams never destroy these. Assignment replaces what was held before, completely. Synchronizing a wrapper completes everything that was put into its stream. A failing construction throws, leaks nothing and leaves the current device as it was.",
 ["histories", "fault_sequences"], "all histories of constructions, copies, moves, assignments (also to itself), uses and destructions, failures of any runtime call",
 "The repository's tests for them need the accelerators, and construct wrappers without looking at what becomes of their streams.",
 ["cuda/src/utils/stream_wrapper.cpp", "cuda/src/utils/opaque_stream.cpp", "sycl/src/utils/sycl/queue_wrapper.sycl", "sycl/src/utils/sycl/opaque_queue.hpp"],
 [("shared opaque_stream", "cuda/src/utils/stream_wrapper.cpp"), ("copied opaque_queue", "sycl/src/utils/sycl/queue_wrapper.sycl")],
 ["streams created, used and destroyed"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
