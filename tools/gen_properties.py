#!/usr/bin/env python3
"""Writes ../properties.jsonl (one object per line) from the table below."""
import json
import os

U = "sources/include/utils/"
M = U + "memory/"
P = []


def p(cid, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": [f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs:
        a["observe_at"] = obs
    assert len(title) <= 80, (cid, len(title))
    P.append({"id": cid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


SR = [M + "simple_resource.h"]
SRS = [("region list", "for every block: index of the previous and next region", M + "simple_resource.h"),
       ("busy flags and counters", "which regions are in use, how many are busy / free", M + "simple_resource.h")]
SRWHY = ("The suite holds a few hand-written sequences on one block size with an aligned buffer, "
         "and this build does not even compile it (the memory headers need an absent dependency); "
         "the property ranges over every history of allocations and deallocations.")

p("C01", "Live blocks of a block resource are disjoint, inside the buffer and aligned",
  "In every reachable state of a fixed-block memory resource, each block it hands out from its buffer lies completely inside the managed part of that buffer, starts at a multiple of both the requested alignment and the block size, and has at least the requested number of bytes. No two blocks that are allocated at the same time share a byte, whatever allocations, deallocations and releases happened before. A request that the buffer does not serve yields either null or exactly the block its upstream resource returned.",
  ["histories", "inputs", "configurations"],
  "every sequence of allocate/deallocate/release calls, every size and power-of-two alignment, every buffer address, length, block size and block count",
  SRWHY, SR,
  [("search for a free region and alignment skip", M + "simple_resource.h: allocate_impl"),
   ("splitting of a free region (four cases)", M + "simple_resource.h: details::allocate_*")], SRS,
  ["pointers returned by allocate"])
p("C02", "Region bookkeeping of a block resource matches the live blocks exactly",
  "After every operation the numbers of busy and free regions, the in-use state, the length in blocks and bytes and the previous/next links reported by a fixed-block memory resource are exactly those implied by the set of live blocks. An allocation occupies precisely the blocks its bytes touch, and adjacent free regions are always merged, so the free memory is reported as maximal free runs and nothing leaks or is counted twice.",
  ["histories", "inputs", "configurations"],
  "every reachable state, i.e. every sequence of allocations, deallocations and releases on every configuration",
  SRWHY, SR,
  [("region links and coalescing", M + "simple_resource.h: merge_adjacent_blocks, set_prev_next"),
   ("split cases", M + "simple_resource.h: details::allocate_*")], SRS,
  ["busy_count, free_count, in_use, block_size, block_size_in_bytes, at, infos"])
p("C03", "First-fit placement, exhaustion and forwarding of allocation requests",
  "A non-empty request whose alignment the buffer can guarantee is placed at the lowest address at which a free region holds it, and only when no free region can hold it is it passed on, once, unchanged in size and at least as aligned, to the upstream resource. Without upstream, or when the upstream fails, the result is null; an empty request always yields null and never reaches the upstream. A refused request, however large or oddly aligned, changes nothing and later requests behave as if it had never been made.",
  ["histories", "inputs", "fault_sequences"],
  "every reachable state times every request size (0, around each block multiple, around the buffer size, up to SIZE_MAX) and alignment, with an upstream that serves or fails",
  SRWHY + " No test uses an upstream that fails or a request near SIZE_MAX.", SR,
  [("size/alignment test and upstream call", M + "simple_resource.h: allocate_impl"),
   ("guaranteed alignment", U + "common.h: max_alignment_inside_block")], SRS,
  ["result of allocate, calls that reach the upstream"])
p("C04", "Deallocation goes to its owner, and invalid deallocations are fatal",
  "Deallocating a block of the buffer frees exactly that block and never involves the upstream; deallocating null does nothing; a block-aligned pointer outside the buffer is passed to the upstream exactly once and leaves the resource unchanged. Any other deallocation (already freed, inside a busy or free region, not block aligned, or outside the buffer when there is no upstream) terminates the program instead of corrupting the resource, in builds with and without assertions.",
  ["histories", "inputs"],
  "every reachable state times every valid, null, repeated, interior, misaligned and foreign pointer",
  SRWHY + " The death tests try one or two bad pointers in one state.", SR,
  [("range test, in-use test, abort", M + "simple_resource.h: deallocate_impl, deallocate_blocks")], SRS,
  ["termination, upstream calls, region bookkeeping"])
p("C05", "release() empties a block resource; destruction is fatal exactly when busy",
  "From every reachable state, releasing a fixed-block memory resource frees all blocks of the buffer at once without touching the upstream, and afterwards the resource behaves exactly like a newly constructed one. Destroying the resource terminates the program if and only if blocks of its buffer are still allocated; a resource that manages no block can be released and destroyed safely.",
  ["histories"],
  "every reachable state followed by release and by every continuation, and by destruction",
  SRWHY + " The tests release from a single state.", SR,
  [("walk over busy regions", M + "simple_resource.h: release, apply"),
   ("destructor check", M + "simple_resource.h: ~simple_resource")], SRS,
  ["bookkeeping after release, termination of the destructor"])
p("C06", "A block resource manages exactly the whole aligned blocks of its buffer",
  "For every buffer address and length the resource manages the whole, block-aligned blocks inside the buffer, at most as many as its block limit, and reports its limits, their start and their total size accordingly; a null, empty or too small buffer gives a resource with no blocks that still forwards to its upstream. Initially one free region covers everything, every managed block can be handed out, and then the next request goes to the upstream (the default resource unless another or none was given).",
  ["inputs", "configurations"],
  "every buffer address modulo the block size, every length from 0 past the block limit and beyond 2^32, every constructor",
  "The tests construct a handful of aligned buffers of one size.", SR,
  [("origin and block count", M + "simple_resource.h: details::origin_and_block_count"),
   ("constructors", M + "simple_resource.h: simple_resource::simple_resource")], None,
  ["data, size, free_count, block_size, allocate"])
p("C07", "A block resource never reads its state from or writes to managed memory",
  "No operation of a fixed-block memory resource changes a byte of the buffer it manages or of the memory around it: whatever users stored in live or freed blocks stays as it was. Its behaviour does not depend on the contents of the buffer either.",
  ["histories", "inputs"],
  "every reachable state and operation, with the whole buffer and its surroundings compared byte by byte; several contents",
  "No test looks at the bytes of the buffer.", SR,
  [("bookkeeping is kept outside of the buffer", M + "simple_resource.h: infos_, in_use_")], None,
  ["bytes of the buffer and of guard zones"])
MB = [M + "monotonic_buffer_resource.h"]
p("C08", "Monotonic buffer: tight, aligned, disjoint blocks in increasing order",
  "Each non-empty request that fits the rest of a monotonic buffer gets the lowest address that is not below the end of the previous block and is a multiple of the requested alignment; no byte before it is skipped without need and no byte is handed out twice until the buffer is released. Every such block lies inside the buffer, up to and including a block that ends exactly at its end.",
  ["histories", "inputs", "configurations"],
  "every sequence of requests, every buffer address and length, all sizes and power-of-two alignments",
  "The only test of this class asserts true and is not built here.", MB,
  [("bump pointer with alignment skip", M + "monotonic_buffer_resource.h: allocate_impl")],
  [("next free byte", "where the next block is searched", M + "monotonic_buffer_resource.h")],
  ["pointers returned by allocate"])
p("C09", "Monotonic buffer: forwarding, empty requests and deallocation",
  "A request that does not fit the rest of a monotonic buffer, however large, is passed to the upstream once with the same size and alignment (the default resource unless another or none was given), or yields null when there is none or it fails, and leaves the buffer position unchanged so that smaller requests are still served. Empty requests yield null and change nothing; deallocation never changes the resource; a null or empty buffer forwards everything.",
  ["histories", "inputs", "fault_sequences"],
  "every reachable position times every size up to SIZE_MAX and every alignment, with an upstream that serves or fails",
  "The only test of this class asserts true and is not built here.", MB,
  [("fit test and upstream call", M + "monotonic_buffer_resource.h: allocate_impl"),
   ("normalisation of null and empty buffers", M + "monotonic_buffer_resource.h: constructors")], None,
  ["results, calls that reach the upstream, data(), size()"])
p("C10", "Releasing a monotonic buffer makes it as new",
  "After release() a monotonic buffer resource answers every sequence of requests with exactly the same addresses as a newly constructed resource on the same buffer, no matter what was allocated before, and reports the same data pointer and size.",
  ["histories"],
  "every history before release times every sequence of requests after it",
  "The only test of this class asserts true and is not built here.", MB,
  [("release", M + "monotonic_buffer_resource.h: release")], None, ["addresses after release"])
MM = [M + "memory.h"]
p("C11", "System and null resources report failure as null and leak nothing",
  "The system resource passes each request to the operating system with the same size and an alignment that is a power of two, at least the requested one and acceptable to the system, and returns its block, or null when the system refuses for whatever reason; never a stale or indeterminate pointer. Each deallocation releases exactly the given block once. The null resource always returns null, accepts deallocation of anything and never calls the operating system.",
  ["fault_sequences", "inputs", "histories"],
  "every sequence of allocations and deallocations, sizes and alignments, with every pattern of allocator failures (out of memory, invalid argument)",
  "The existing tests cannot inject allocation failures, and are not built here.", MM,
  [("aligned_malloc / aligned_free", M + "memory.h: aligned_malloc"),
   ("null resource", M + "memory.h: details::null_memory_resource")], None,
  ["calls into the operating system allocator"])
p("C12", "Resource identity and the default resource across histories and files",
  "Two resources compare equal exactly when they are the same object; the system and the null resource are each one object for the whole program, whichever source file asks. The default resource starts as the system resource, setting it returns the previous value and affects every later read and every later construction that uses the default, in all source files, and never resources or allocators that already exist. A buffer resource can be neither copied nor assigned, so no two of them hand out the same memory.",
  ["histories", "programs"],
  "every sequence of set, read and construct operations issued from two separately compiled source files, over all kinds of resources",
  "Tests use one source file and one resource at a time.", MM + MB + SR + [M + "allocator.h"],
  [("process-wide register", M + "memory.h: details::default_resource"),
   ("singletons", M + "memory.h: system_memory_resource, null_memory_resource"),
   ("identity comparison", M + "memory.h: operator==, is_equal")], None,
  ["get_default_resource, set_default_resource, upstream actually used"])
p("C13", "Concurrent use of the default resource is race-free and linearizable",
  "Threads may set and read the default resource, and fetch the system and null resources (including for the first time), concurrently without a data race. Every outcome is one that some order of the individual calls produces: no set is lost, each previous value is returned exactly once, and a thread that sees a resource set by another thread also sees everything that thread did to construct it.",
  ["schedules"],
  "every interleaving of the shared-memory accesses of 2 and 3 threads with 1 to 3 calls each",
  "No test starts a second thread.", MM,
  [("atomic exchange / load", M + "memory.h: set_default_resource, get_default_resource"),
   ("thread-safe local statics", M + "memory.h: system_memory_resource")], None,
  ["return values of all calls, happens-before of published objects"])
p("C14", "Chained and user-defined resources compose",
  "When resources are stacked (a fixed-block or monotonic resource whose upstream is another one, down to the system, null or a user-defined resource) every live block belongs to exactly one level and overlaps no other, every block freed through the top reaches exactly the level that owns it (a monotonic level above the owner absorbs the call, as it frees nothing), and a failure at the bottom surfaces as null at the top without changing any level. Calls through the base-class interface reach the concrete resource, typed requests use the size and alignment of the type, and requests without alignment use the fundamental alignment.",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of operations on 2- and 3-level chains of every kind of resource, with bottom-level failures",
  "No test stacks resources.", MM + SR + MB,
  [("member-pointer dispatch", M + "memory.h: memory_resource::allocate"),
   ("upstream forwarding", M + "simple_resource.h: allocate_impl, deallocate_impl")], None,
  ["pointers, calls per level"])
AL = [M + "allocator.h"]
p("C15", "Allocator requests the exact size and alignment, or refuses",
  "Allocating n objects of a type through an allocator asks its resource once for n times the object size with the alignment of the type, and when that product is not representable it yields null without asking; byte requests are passed on as given. Failures of the resource surface as null, every deallocation passes the same pointer to the same resource once, and copies and conversions of an allocator to other element types use the same resource and compare equal exactly when their resources are equal.",
  ["inputs", "histories", "fault_sequences"],
  "every count including those whose byte size overflows, element types of many sizes and alignments, resources that serve or fail",
  "The only test checks the default resource pointer.", AL,
  [("size computation", M + "allocator.h: allocate, allocate_object"),
   ("conversion and comparison", M + "allocator.h: allocator(const allocator<U>&), operator==")], None,
  ["requests that reach the resource"])
p("C16", "Creating and deleting objects constructs and destroys each exactly once",
  "Creating an object through an allocator constructs it exactly once, in storage of its size and alignment, from exactly the given arguments with their value category preserved, and yields null without constructing anything when the storage cannot be allocated. Deleting it destroys it exactly once and then returns its storage exactly once; deleting null does nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of creations and deletions with failing and serving resources and every combination of argument categories",
  "No test creates an object.", AL,
  [("new_object, delete_object, construct", M + "allocator.h")], None,
  ["constructor/destructor/resource calls in order"])
p("C17", "Secure zeroing clears exactly the given range and is never optimised away",
  "Secure zeroing sets every byte of the given range to zero and changes no byte outside it, at compile time and at run time, for every length, start and content; the checked form reports a null pointer and an empty range by distinct error codes without touching memory and otherwise returns 0. The stores happen even when the buffer is never read again, in optimised builds too.",
  ["inputs", "configurations"],
  "every offset and length up to a bound and contents, optimised and unoptimised builds, dead heap and stack buffers",
  "No test covers it, and a test that reads the buffer back hides the elimination of dead stores.", MM,
  [("volatile / constant-evaluated loops", M + "memory.h: secure_zero_memory"),
   ("argument checks", M + "memory.h: secure_zero_memory_safe")], None, ["bytes of the buffer"])
p("C18", "Memory move and copy agree with the standard at run and compile time",
  "Moving a range of bytes yields the result of copying through a temporary for every overlap of source and destination, and copying disjoint ranges yields an exact copy for byte-sized element types and void pointers, for every length including zero; nothing outside the destination changes and the move returns its destination. Constant evaluation and execution give the same result.",
  ["inputs"],
  "every pair of source and destination offsets and every length within a bound, at run time and in constant expressions",
  "No test covers overlapping moves in either mode.", MM,
  [("memmove, memcpy", M + "memory.h")], None, ["bytes of the buffer"])
C = [U + "common.h"]
p("C19", "Alignment arithmetic is exact for every address, alignment and value",
  "The next multiple of a power of two is the smallest multiple not below the value, the distance to alignment is the difference between the two, an address is reported aligned exactly when it is a multiple, and the alignment of an address is the largest power of two dividing it. The power-of-two test, the greatest power-of-two divisor and the largest alignment guaranteed inside any block of a given alignment and size are exact for all values of the type, including those above 2^31.",
  ["inputs"],
  "all 8- and 16-bit values and all structured 32- and 64-bit values times every power of two",
  "Tests sample small values and a few addresses.", C + MM,
  [("next_multiple_of, skip_to_align, is_aligned", U + "common.h"),
   ("is_power_of_2, greatest_divisor_that_is_power_of_2, max_alignment_inside_block", U + "common.h"),
   ("get_alignment", M + "memory.h")], None, ["results"])
p("C20", "Leading and trailing zero counts are exact for every unsigned value",
  "For every non-zero value of every unsigned integer type, the counts of leading and trailing zero bits are those of the mathematical definition for the width of that type, the same in constant expressions and at run time and for types of equal width. Types that are not unsigned integers are rejected.",
  ["inputs", "configurations"],
  "all values of the 8- and 16-bit types (32-bit in the thorough tier), and every 64-bit value with up to 3 set bits, every prefix mask and every run of ones",
  "Tests check one-bit patterns of each width and a few others.",
  [U + "clz.h", U + "ctz.h", U + "details/cxz.h"],
  [("choice of the builtin and correction of the width", U + "clz.h, " + U + "ctz.h")], None, ["results"])
p("C21", "Bit-width helpers return the minimal width and type",
  "The number of bits of a value is zero for zero and otherwise the position of its highest set bit plus one; the population-count table is right for every byte; the smallest and fastest unsigned types for 1 to 64 bits and 1 to 8 bytes have at least that many bits, and the smallest type is the smallest standard one. Enumeration widths, per-type bit counts (1 for bool) and total byte counts of several types (rounded up) follow from these.",
  ["inputs", "configurations"],
  "all 8/16-bit values, all structured 64-bit values, every bit count 1..64 and every byte count 1..8, all sequences of up to four types",
  "Tests sample a few widths.", C,
  [("bits_count, nbits_occupied, kNumBitsTable", U + "common.h"),
   ("uint_from_nbits, fast_uint_from_nbits, UInt, FastUInt, enum_properties, num_bits, sum_size", U + "common.h")],
  None, ["results, types"])
p("C22", "Integer division gives the exact quotient and remainder",
  "For every pair of integer operands with a non-zero divisor whose common type can hold the result, division yields the truncated quotient and the matching remainder in the common type of the operands (or in the requested type for the converting form), identical in constant expressions and at run time, for mixed widths and signedness and over the complete range of the type.",
  ["inputs", "configurations"],
  "all 8-bit operand pairs for all type combinations, all 16-bit values against structured divisors, all pairs of structured 32/64-bit values",
  "Tests divide a handful of small numbers, none above the range of long long.", C,
  [("constant-evaluated and library paths", U + "common.h: div, div_as, div_t")], None, ["results, types"])
p("C23", "Shifts, bit casts and enum conversion preserve the exact bits",
  "Shifting any integer by any amount below its width gives the mathematical result truncated to the operand's own type, which is also the result type; a bit cast reproduces every object bit in both directions for any pair of equally sized trivially copyable types; converting an enumerator yields its value in the underlying type.",
  ["inputs", "configurations"],
  "all 8/16-bit values and structured 32/64-bit values times every shift amount; all 16-bit and structured 32/64-bit patterns for casts",
  "Tests sample a few constants.", C,
  [("shift_left, shift_right, bit_cast, to_underlying", U + "common.h")], None, ["results, types"])
p("C24", "Array construction and concatenation keep every element in order",
  "Concatenating any number of arrays of one element type, empty ones included, gives the elements of all of them in order; building an array from values, a repeated value, a string view prefix or selected positions of one gives exactly those elements and size; a zero array has only zero elements. This holds for copied and moved arrays, for element types that own memory, and in constant expressions.",
  ["inputs", "configurations"],
  "every combination of up to four arrays of sizes 0..3 as lvalues and rvalues, every length 0..8, every selection of up to three positions",
  "Tests build a few arrays of ints.", C,
  [("concatenate_arrays, make_array, make_zero_array, sv_to_array", U + "common.h")], None, ["elements"])
p("C25", "Memory and array comparison helpers decide equality exactly",
  "Comparing a memory range with a byte value is true exactly when the range is non-null, non-empty and every byte equals the value, and reads no byte outside the range. Comparing two arrays over a given number of leading elements is true exactly when all of those elements are equal, whatever the remaining ones are.",
  ["inputs"],
  "every length up to a bound, every position and value of a differing byte, every alignment, ranges that end at an inaccessible page; every pair of small arrays and every count",
  "Tests use a few buffers with the difference in one place.", C,
  [("memvcmp, is_equal", U + "common.h")], None, ["results, memory accesses"])
p("C26", "In-place implementation holder has value semantics and exact lifetimes",
  "A holder of a hidden implementation object constructs exactly one such object (default, from forwarded arguments, copy or move), destroys exactly that one, and copies, moves and assigns as the object itself would, from holders and from plain objects, including self-assignment. Access through the holder reaches the object, at the declared alignment and without extra space, and no operation throws more than the object's own; exceptions of the object leave no extra or missing lifetime. A declared size or alignment that differs from the object's is rejected by the compiler.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of constructions, copies, moves, assignments and destructions on three holders, with value categories and throwing operations enumerated",
  "The only test constructs one holder.", [U + "fast_pimpl.h"],
  [("placement construction, forwarding, destructor", U + "fast_pimpl.h")],
  [("storage", "bytes that hold the implementation object", U + "fast_pimpl.h")],
  ["constructor/assignment/destructor calls, values"])
p("C27", "A timer runs its callback exactly once, from its final owner",
  "The callback given to a timer is called exactly once, when the timer that owns it is destroyed, with that timer as argument; moving a timer transfers the callback and the start time, and the moved-from timer calls nothing. Assigning another timer over one replaces its callback and start time without calling the replaced callback, and assigning a timer to itself changes nothing. Callbacks that fit and can be called with the timer are accepted, larger or more aligned ones and ones that cannot be called with it are rejected by the compiler. A timer can be moved but not copied.",
  ["histories"],
  "every sequence of constructions (function, function pointer, functor), moves, move assignments (including to itself and over an armed timer), resets and destructions on three timers",
  "Tests are not built here and never check that a callback ran.", [U + "timer.h"],
  [("callback slot and its transfer", U + "timer.h: timer::timer(timer&&), operator=, ~timer")],
  [("callback and its data", "what runs at destruction", U + "timer.h")], ["calls of the callback"])
p("C28", "Elapsed time is measured from the last start and in exact units",
  "A timer reports the difference between the current reading of the clock and its start, which is the reading at construction or at the last reset and moves along with the timer. The readings in seconds, milliseconds, microseconds and nanoseconds are that difference truncated to the unit, for every value including differences beyond 2^32 units.",
  ["histories", "inputs"],
  "every sequence of clock advances, resets, moves and readings over a set of advances from 0 ns to decades",
  "Tests cannot control the clock.", [U + "timer.h"],
  [("leaked, leaked_sec, leaked_milli_sec, leaked_micro_sec, leaked_nano_sec, reset, start_tp", U + "timer.h")],
  None, ["reported durations"])
TL = [U + "type_list.h"]
p("C29", "Type list queries agree with the sequence of types",
  "For every list of types the reported size, element at each position, first index of a type (the size when absent), index of the first type that satisfies a predicate, position of the n-th type that satisfies one, counts by type and by predicate, containment of a type or of all types of another list, sameness of all elements and presence of duplicates are those of the sequence the list denotes.",
  ["inputs", "configurations"],
  "every list up to length 5 over an alphabet of types that differ in size, signedness and cv-qualification, every query argument",
  "Tests assert a few hand-picked lists.", TL,
  [("type_list members", U + "type_list.h")], None, ["values and types"])
p("C30", "Type list transformations keep order, contents and stability",
  "Taking a sublist, removing an element, selecting the elements that satisfy a predicate and sorting by size in either direction yield exactly the specified elements; sorting is a stable permutation, and the positions reported for the smallest and largest element are the first ones. Out-of-range sublists and removals are rejected rather than silently truncated.",
  ["inputs", "configurations"],
  "every list up to length 5 over types with equal and different sizes, every position and count",
  "Tests assert a few hand-picked lists.", TL,
  [("sublist, exclude_at, sort_sizeof_*, min/max_sizeof_index, list_of_predicate_compliant", U + "type_list.h")],
  None, ["types"])
p("C31", "Value list queries agree with the sequence of typed values",
  "For every list of compile-time values the size, element and type at each position, first index of a value (the size when absent), counts, containment, sameness, duplicates, presence of a type, minimum and maximum among the values of a type and the sublist of the values of a type are those of the sequence, where values of different types are different even if they compare equal.",
  ["inputs", "configurations"],
  "every list up to length 4 over values of several types that compare equal across types, every query argument",
  "Tests assert a few hand-picked lists.", [U + "value_list.h"],
  [("value_list members", U + "value_list.h")], None, ["values and types"])
p("C32", "Concatenation and cartesian product of lists are complete and ordered",
  "Concatenating lists yields all their elements in order; the cartesian product of two or more lists of types or of values yields every combination exactly once, ordered with the last list varying fastest, each combination listing its elements in the order of the lists; the product with any empty list is empty.",
  ["inputs", "configurations"],
  "every combination of list lengths 0..3 for two to six lists, of types and of values",
  "Tests assert a few hand-picked products.", [U + "cartesian_product.h"],
  [("concatenate, cartesian_product", U + "cartesian_product.h")], None, ["types"])
FT = [U + "function_traits.h"]
p("C33", "Function signature traits decompose every kind of function type",
  "For every function type (all 24 combinations of const, volatile, reference and noexcept qualifiers) the traits report exactly the qualifiers present, the return type and the parameter list, and removing a qualifier removes that one and nothing else. The signatures of member functions, functors and plain functions are found, and exactly the invocable kinds of types are classified as invocable.",
  ["inputs", "configurations"],
  "all 24 qualifier combinations times return types times parameter lists of length 0..3, and function, pointer, member, functor and non-invocable types",
  "Tests cover a part of the combinations.", FT,
  [("qualifier tables", U + "function_traits.h: QUALIFIERS"),
   ("signature, is_invocable, params_list, return_type, remove_*", U + "function_traits.h")], None, ["values and types"])
p("C34", "Generated member and function checkers answer exactly per declaration",
  "The checkers generated for a member type, data member, static data member, method, static method or free function of a given name are true exactly for classes or argument lists for which such a declaration exists, is of the requested kind (for data members: one that a pointer can be formed to) and is callable (or has the requested exact or convertible type, qualifiers, return type and noexcept), and false otherwise without a hard error.",
  ["inputs", "configurations"],
  "all 24 method qualifier combinations against all 24 requested ones, and every kind of member against every checker",
  "Tests cover a part of the matrix.", FT,
  [("CREATE_*_CHECKERS macros", U + "function_traits.h")], None, ["values"])
p("C35", "Detection idiom reports validity, type and defaults exactly",
  "Detection of an operation on a list of types is true exactly when the operation is well-formed for them; the detected type is the type of the operation, otherwise the given default or a placeholder that cannot be created, copied or destroyed. The exact and convertible forms compare that type, and none of them causes a hard error for ill-formed operations.",
  ["inputs", "configurations"],
  "every operation of a set of operations times every type of a set of types",
  "Only indirectly used by the tests.", [U + "detector.h"],
  [("detector, is_detected*, detected_t, detected_or, nonesuch", U + "detector.h")], None, ["values and types"])
p("C36", "Padding detection is exact for aggregates of scalars and aggregates",
  "A trivially copyable aggregate built from scalars and nested aggregates is reported to have padding exactly when some byte of its object representation belongs to no scalar, including padding inside nested members and at the end (an empty one has padding); a type that is not trivially copyable is always reported to have padding.",
  ["inputs", "configurations"],
  "every aggregate of up to 4 members over scalars of size 1, 2, 4 and 8 and nested aggregates with and without padding",
  "Tests check a few structures.", [U + "padding_checker.h"],
  [("sum of member sizes", U + "padding_checker.h")], None, ["values"])
p("C37", "Conditional abort: fatal exactly on a true condition, with the message",
  "A conditional abort terminates the program abnormally if and only if its condition is true, after writing the formatted message to the error stream, and does nothing visible otherwise; its macro form evaluates the condition once and reports file, line, function and the formatted reason. The debug-only form behaves the same with assertions enabled and evaluates nothing when they are disabled.",
  ["inputs", "configurations"],
  "every form of the call (condition true/false, with and without message and arguments) in builds with and without assertions",
  "A death test checks one form.", C,
  [("abort_if, UTILS_ABORT_IF, UTILS_DEBUG_ABORT_IF", U + "common.h")], None, ["termination, error output, evaluations"])
p("C38", "Visiting arguments and tuples calls the function once per element in order",
  "Visiting an argument list or a tuple calls the function exactly once per element, from first to last, with each element's type, constness and value category as it was passed, on the caller's own function object.",
  ["inputs", "configurations"],
  "every list of up to four elements over value, lvalue, const and rvalue categories; const, mutable and temporary tuples and functions",
  "Tests visit one or two tuples of ints.", C,
  [("for_each_arg, for_each_in_tuple", U + "common.h")], None, ["calls"])
p("C39", "Generated value ranges contain every value of the range once",
  "The list of all values between two bounds contains each of them once in ascending order, for every integer type and up to the limits of the type; a shifted sequence adds the shift to each element; an array over an ascending range with a step holds the values first, first+step, ... not beyond the last, including ranges that end at the largest value of the type, and ill-formed ranges are rejected.",
  ["inputs", "configurations"],
  "every pair of bounds of a window for each integer type, windows at the limits of the type, every step up to a bound",
  "Tests use two ranges.", C,
  [("values_in_range, shifted_sequence, make_array_from_range, is_valid_range", U + "common.h")], None, ["values"])
p("C40", "Type predicates classify every type exactly",
  "The predicates for unsigned integers (not bool), unsigned integers or bytes, equal sizes, standard arrays, tuples, reference wrappers, type lists and value lists, and the functions that strip references and qualifiers or unwrap reference wrappers, are exact for every type, with and without cv-qualifiers and references as documented by their standard counterparts.",
  ["inputs", "configurations"],
  "every type of a closed set of arithmetic, class, array, tuple, wrapper, pointer and list types, with every cv-reference qualification",
  "Tests check a few types.", C + TL + [U + "value_list.h"],
  [("is_uint, is_uint_or_byte, is_equal_sizes, is_std_array, is_tuple, is_ref_wrapper, unwrap_reference, remove_cvref", U + "common.h"),
   ("is_type_list, is_value_list", U + "type_list.h, " + U + "value_list.h")], None, ["values and types"])
p("C41", "Every header works alone, in any order and in several source files",
  "Each public header compiles on its own, before or after any other one; a program made of several source files that all include every header links without duplicate or missing definitions and behaves as one program. This holds in builds with and without assertions.",
  ["programs", "configurations"],
  "every header alone, every ordered pair of headers, two and three source files linked together",
  "The tests include the headers in one fixed order, after the test framework's own includes.",
  [U + "utils.h", U + "common.h", M + "memory.h", U + "clz.h", U + "ctz.h", U + "timer.h", U + "fast_pimpl.h", U + "value_list.h", U + "cartesian_product.h"],
  [("include lists, inline definitions", U + "*.h")], None, ["compiler and linker results"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
