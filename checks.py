"""What decides each property: harness, builds, bounds (see DESIGN.md)."""

SIMPLE_BOUNDS = (
    "every operation sequence of any length (closed state graph): 2..8 blocks "
    "(12 thorough; 128, 256, 257, 65536 with coarse sizes) of 1 B..2 GiB, "
    "request sizes around every block multiple, around the whole buffer and "
    "around SIZE_MAX, alignments from 1 to beyond the buffer, buffers aligned "
    "and misaligned, with and without upstream that serves or fails; every number "
    "of live blocks 0..256 and the boundary counts around 255, 256, 512, 1024 (65536 "
    "thorough), freed in 5 orders, released, destroyed")

CHECKS = {}


def mc(cid, harness, technique, bounds, **kw):
    CHECKS[cid] = dict(harness=[harness] if isinstance(harness, str) else harness,
                       level="model_checking", technique=technique,
                       bounds=bounds, **kw)


def ex(cid, harness, technique, bounds, rule, **kw):
    CHECKS[cid] = dict(harness=[harness] if isinstance(harness, str) else harness,
                       level="exploration", technique=technique,
                       bounds=bounds, rule=rule, **kw)


BFS = ("explicit-state breadth-first exploration of the real class against a "
       "reference model of the live blocks")
for c in ("C01", "C02", "C03", "C04", "C05", "C07"):
    mc(c, "simple.cpp", BFS, SIMPLE_BOUNDS)
ex("C06", "geometry.cpp",
   "exhaustive enumeration of buffer addresses, lengths and constructors, each "
   "followed by a full allocate/free cycle on the real class",
   "every address offset 0..2 blocks, every length up to N+3 blocks, lengths "
   "beyond 2^32, null buffers, arrays of 1 B..2 MiB, block sizes 1 B..2 GiB, 2..1024 blocks",
   "one case = one constructor call with (address, length); non-trivial: at "
   "least one block is managed")

for c in ("C08", "C09", "C10"):
    mc(c, "monotonic.cpp", BFS.replace("live blocks", "bump position"),
       "every operation sequence of any length (closed state graph) on buffers "
       "of 0..64 bytes at 10..30 offsets and of 6 GiB across 2^31/2^32: all "
       "sizes up to beyond the buffer and around 2^63/2^64, alignments 1..2^63, "
       "upstream none / null / system that serves or fails; every constructor "
       "with every default resource, buffers of 0 bytes .. 2^40")
mc("C11", "system.cpp",
   "explicit-state exploration of call histories of the real functions over a "
   "fault-injecting operating system allocator",
   "every history over {allocate through resource, base default, typed and free "
   "function; both deallocations; null resource} x every answer of the system "
   "(served, 5 kinds of refusal with and without a garbage result) x all 64 "
   "alignments, with up to 3 live blocks, all pairs of consecutive calls")
mc("C12", "identity.cpp",
   "explicit-state exploration of call histories, from two source files of one "
   "program, of the real default-resource register and singletons",
   "every history of any length (closed state graph) of setting the default to "
   "one of 5 values, constructing and destroying up to 2 resources or "
   "allocators in every form, from either file; after each step all reads, all "
   "comparisons and the upstream of every existing object; 5 buffer resources x 11 "
   "ways of copying or assigning them",
   sources=["identity_b.cpp"], variants=["dbg", "opt", "clang"])
mc("C14", "chain.cpp",
   "explicit-state exploration of whole stacks of real resources against a "
   "reference model of every level",
   "11 (14) stacks of 2..6 levels of simple, monotonic, user-defined "
   "(single and multiple inheritance), system, null and no resource with "
   "adjacent buffers; all operation sequences (closed state graphs, or the "
   "stated number of states for stacks with monotonic levels)")
ex("C15", "allocator.cpp",
   "exhaustive enumeration of request forms, element types, counts and resource "
   "answers on the real allocator over a recording resource",
   "3 forms x 16 element types x about 600 counts around 0, every power of two, "
   "SIZE_MAX/size and SIZE_MAX/d x resource serves/fails; byte requests with all "
   "64 alignments; equality of all pairs of 6 resources in 4 type combinations",
   "one case = one call with (type, count, answer); non-trivial: more than one "
   "object or a product that is not representable")
mc("C16", "allocator.cpp",
   "explicit-state exploration of create/delete histories of instrumented objects "
   "in a recording arena",
   "every history (4 live objects, depth 4; thorough 9) over 12 argument forms "
   "with and without memory, deletion by the same and a converted allocator, null")
TS = ["-std=c++17", "-w", "-fsanitize=thread"]
mc("C13", "conc.cpp",
   "stateless exploration of all interleavings of the real code (compiled with "
   "thread-sanitizer instrumentation against an own scheduler runtime), with "
   "vector-clock race detection and brute-force linearizability of every history",
   "all schedules, without a preemption bound, of 19 (23) programs of 2..4 threads, and "
   "of 4 (6) more of 3..4 threads all schedules with at most 2 (3..4) preemptions; "
   "1..4 calls per thread, 13 of the programs as the first use of the library in the "
   "process; scheduling points before every atomic access, static guard, "
   "mutex and once operation; sequentially consistent interleavings, happens-before "
   "from the memory orders used",
   variants=["rt1", "rt2", "rtc"], libs=["-pthread", "-ldl", "-rdynamic"],
   objects={"rt1": [("conc_body.cpp", ["g++", "-O1"] + TS)],
            "rt2": [("conc_body.cpp", ["g++", "-O2", "-DNDEBUG"] + TS)],
            "rtc": [("conc_body.cpp", ["clang++", "-O2"] + TS)]},
   assumptions=["interleavings are sequentially consistent; weaker behaviours "
                "show as data races on what is published"])

for c, t in (("C17", "buffer, length, content, call form"),
             ("C18", "destination, source, length, element types")):
    ex(c, "memops.cpp",
       "exhaustive enumeration of calls on the real functions, executed and "
       "constant-evaluated, in three optimising and one sanitized build",
       {"C17": "all offsets 0..19 x lengths 0..96 (300) x 5 contents, long ranges "
               "to 1 MiB and three of 4 GiB and more, every (start,length) of 24 bytes in "
               "constant expressions; buffers of 1..16384 bytes that die right "
               "after the call in 6 forms",
        "C18": "every (destination, source, length) inside 36 (96) bytes, long "
               "ranges at 33 distances, every one inside 11 bytes in constant "
               "expressions, 54 pairs of element types"}[c],
       "one case = one call with (%s); non-trivial: at least one byte is "
       "written (C18: the ranges overlap)" % t,
       variants=["dbg", "opt", "clang", "o3"])

BITS = {
 "C19": ("all 16-bit values and ~25000 structured 64-bit values (all one/two-bit "
         "patterns, runs, complements, 70 neighbours of every power of two) x all 64 "
         "alignments; every 8/16-bit value of the typed forms; 20 type alignments; "
         "all (alignment, size < 70000) blocks",
         "value, alignment", "the value is not already a multiple"),
 "C20": ("every 8- and 16-bit value of 14 unsigned types, every 32-bit value, "
         "structured 64-bit values, in constant expressions all one- and two-bit "
         "values and runs; 37 accepted and rejected types",
         "type, value", "the value is non-zero"),
 "C21": ("all 16-bit and structured 64-bit values, all 256 table entries, all 64 "
         "widths, all 8 byte counts, enumerations with every highest bit, all type "
         "lists of length 1..3 over 5 types and up to 34 bools",
         "helper, value or type list", "the width is not zero"),
 "C22": ("all pairs of 8-bit values and of ~450 boundary values for 13 x 13 operand "
         "types, 55 typed forms, 20 type pairs x 48 x 48 in constant expressions",
         "numerator, denominator, types", "the remainder is not zero"),
 "C23": ("every 8/16-bit and ~600 boundary values x every amount for 14 types, "
         "also constant; 24x24-bit patterns through 127 pairs of types; every "
         "underlying type", "operation, value, amount or types",
         "the value is not zero"),
}
for c, (b, case, nt) in BITS.items():
    ex(c, "bits.cpp",
       "exhaustive enumeration of arguments of the real functions against "
       "128-bit reference arithmetic, executed and constant-evaluated",
       b, "one case = (%s); non-trivial: %s" % (case, nt),
       flags=["-DPART=" + c[1:]])



def shards(src, part, n):
    return [(src, str(k), ["-DPART=%d" % part, "-DSHARD=%d" % k])
            for k in range(1, n + 1)]


SEQ = {
 24: (4, ["dbg", "opt"], "every combination of 1..5 arrays of 0..5 elements with every "
      "(3 arrays: every; more: rotating) value category, 6 element types, up to "
      "557 elements; 1..24 values, 0..257 repeats, every prefix of views of 0, 11, 40, 300 "
      "characters, every choice of "
      "up to 3 of 6 positions; the same in constant expressions",
      "shape of the call", "the result is not empty"),
 25: (0, ["dbg", "opt", "clang"], "all lengths 0..70 (200) at the end and start of a page "
      "and at odd offsets, 6 values, a differing byte at every position with 3 "
      "differences; all pairs of arrays of up to 4 elements over 3 letters, all "
      "prefixes; one difference at every position of arrays up to 70, at the edges of arrays up to "
      "70000; lengths of 4 GiB and more",
      "contents and length", "length is not zero"),
 38: (2, ["o0", "clang0"], "all argument lists of length 0..4 x 4 value categories, all "
      "tuples of 0..3 elements over 5 element types x 4 value categories of the tuple, "
      "3 kinds of function objects", "argument list", "the list is not empty"),
 39: (3, ["o0", "clang0"], "all pairs of bounds in -5..5 and every range of length 1..4 within "
      "4 of every limit of 11 types, complete 8-bit ranges, up to 1001 values; 125 sequences x 9 shifts and 14 shifts of the edges of 12 types; all "
      "(begin, length, step) of 7 x 13 x 5 and 75 at the limits of 8 types, up to 65542 values; 343 range "
      "validity questions", "bounds and step", "more than one value"),
 40: (0, ["o0", "clang0"], "95 types x 11 cv/reference/pointer forms x all predicates; all "
      "lists of 1..4 types of 5 for equal sizes", "type and predicate", "any"),
}
for k, (n, va, b, case, nt) in SEQ.items():
    ex("C%d" % k, shards("seq.cpp", k, n) if n else [("seq.cpp", "1", ["-DPART=%d" % k])],
       "exhaustive enumeration of calls and instantiations of the real templates "
       "against an independent reference, executed and constant-evaluated",
       b, "one case = (%s); non-trivial: %s" % (case, nt), variants=va,
       **({"script": "rejects.py"} if k == 39 else {}))

TYPES = {
 29: (6, "all lists of 0..4 types over 7 and of 1..6 over 7 types without size, value or operations (5: every "
      "31st), of up to 64 and of 256..300 types; every type, predicate, position and sublist as "
      "argument", "list", "the list has more than one element"),
 30: (8, "all lists of 0..4 types over 5 types of equal and different sizes, longer ones to "
      "20 by stride, lists of 257 and 258, lists of up to 5 over 7 types without size, value or operations, lists of 1..3 over 11 types of 1 byte to beyond 2^32; every "
      "position and count of sublists and removals, every predicate, both sorts",
      "list", "the list has more than one element"),
 31: (7, "all lists of 0..4 values over two alphabets whose values compare equal across "
      "types, with limits, enumerators, pointers, null pointer; lists over the edges of "
      "the range of 17 integral and enumeration types; lists of 256..258; every query argument",
      "list", "the list has more than one value"),
 32: (3, "concatenation of 1..5 lists and products of 2..6 lists of lengths 0..3, of "
      "types and of values; results of 256..514 elements and combinations", "lists", "the result has more than one element"),
}
for k, (n, b, case, nt) in TYPES.items():
    ex("C%d" % k, shards("types.cpp", k, n),
       "exhaustive enumeration of instantiations of the real templates against a "
       "reference on sequences of letters",
       b, "one case = one %s with every query; non-trivial: %s" % (case, nt),
       variants=["o0", "clang0"], flags=["-ftemplate-depth=4096"],
       **({} if k == 32 else {"script": "rejects.py"}))

PI = ("every history of any length (closed state graph) of 3 holders and a plain object "
      "under 27 forms of construction, assignment, access and destruction, with an "
      "exception at every operation of the object, for 6 kinds of object; 70 layouts; "
      "128 noexcept combinations; declared sizes and alignments around the right one")
mc("C26", "pimpl.cpp",
   "explicit-state exploration of the real class over an instrumented object against "
   "a reference model of values and lifetimes", PI,
   variants=["dbg", "opt", "clang"], script="rejects.py")

mc("C27", "timer.cpp",
   "explicit-state exploration of the real class over a controlled clock against a "
   "reference model of ownership",
   "every history of any length (closed state graph) of 2 timers with 15 kinds of "
   "callbacks and of 3 timers with 3 kinds (thorough: all) under construction, move, "
   "move assignment (also to itself), swap, reset, clock ticks, destruction; vectors of "
   "1..32 timers; accepted and rejected sizes and kinds of callbacks; timers of 6 other "
   "sizes with 30 sizes of callbacks under all histories of 3 (5) moves",
   variants=["dbg", "opt", "clang"], script="rejects.py")
mc("C28", "timer.cpp",
   "explicit-state exploration of the real class over a controlled clock",
   "9 starts x about 1300 differences around every power of two and ten of every unit up "
   "to 2^63-1 ns x 4 histories; all histories of depth 7 (9) of 2 timers with 6 clock "
   "advances from 1 ns to 2^31 s; closed state graph of 3 timers; 9 other "
   "clocks (period and representation) with differences of both signs",
   variants=["dbg", "opt", "clang"])

TRAITS = {
 33: (5, "all 24 qualifier combinations x return types x parameter lists of length 0..3 as "
      "function, method, functor and pointer types, and x each of 101 return types and 81 "
      "parameter types, 24 x 24 pairs of those; lists of up to 257 parameters; every kind of "
      "non-function type",
      "type", "the type has a signature"),
 34: (8, "methods with all 24 qualifier combinations x every requested qualifier combination, "
      "signature, argument list and object form; every kind of class member and class against "
      "every generated checker; 3-argument free functions over 7 types; 65 x 65 results and "
      "nested types against what is asked for",
      "declaration, question", "the answer is true"),
 35: (7, "46 operations x 54 types, 14 operations x 24 x 24 types, 4 operations x 9^3 types, "
      "every default, expected type and conversion target of 54 x 54 types; operations of no "
      "and of any number of types; uses of the placeholder",
      "operation, types", "the operation is well-formed"),
 36: (6, "aggregates of 0..5 members over up to 23 member types (scalars, nested, empty, "
      "over-aligned, packed, constant), up to 16 levels and 128 members",
      "type", "the type has padding"),
}
for k, (n, b, case, nt) in TRAITS.items():
    ex("C%d" % k, shards("traits.cpp", k, n),
       "exhaustive enumeration of instantiations of the real templates against " +
       {33: "the qualifiers, results and parameters each type was composed of",
        34: "the declarations each class was composed of",
        35: "overload resolution between an expression and a fallback, and a table of facts",
        36: "the bytes of a real object covered by its members"}[k],
       b, "one case = (%s); non-trivial: %s" % (case, nt), variants=["o0", "clang0"],
       **({"script": "rejects.py"} if k == 35 else {}))

ex("C37", "aborts.cpp",
   "exhaustive enumeration of calls, each executed in a process of its own whose end, output "
   "and evaluations are observed",
   "46 formats and arguments, messages of 0..1000000 characters around every buffer size, 17 "
   "forms of the macros in 14 kinds of places and 3 kinds of file names x both macros x both "
   "conditions x assertions on and off; SIGABRT default, ignored, caught, blocked",
   "one case = (form, place, condition, build); non-trivial: the condition is true",
   variants=["dbg", "opt", "plain", "clang"])

CHECKS["C41"] = dict(
    level="exploration", script="headers.py",
    technique="exhaustive enumeration of include orders and programs, each compiled (and the "
              "programs linked and run) with two compilers, assertions on and off",
    bounds="all 16 public headers alone, twice, behind the system headers, all 240 ordered pairs, "
           "all rotations of all headers in both directions, each with a use of what the header "
           "declares; programs of 2 and 3 source files and with a shared library",
    rule="one case = one program; non-trivial: more than one header or source file")

NOT_APPLICABLE = {}
