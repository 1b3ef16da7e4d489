"""What each check builds and runs.  cases: total number of generated cases per variant and tier."""
ARENA = ["arena/arena.cc"]
METRICS = ["arena/arena.cc", "arena/metrics.cc"]

PROPS = {}


def prop(pid, src, lib, rule, quick, thorough, technique, note, variants=("dbg", "rel"), fuzz=False, workers=None,
         cpu_limit=20, level="exploration", assumptions=None):
    PROPS[pid] = dict(src=src, lib=lib, rule=rule, quick=quick, thorough=thorough, technique=technique, note=note,
                      variants=variants, fuzz=fuzz, workers=workers, cpu_limit=cpu_limit, level=level,
                      assumptions=assumptions or [])


_AR = "stateful model-based property testing of arena histories, shrinking, ASan+UBSan"
_ARN = ("Random exploration of arena histories against an explicit model fed only by public effects (block allocator calls, returned "
        "pointers, queries, hooks); no absence proof. Trusts the model, AddressSanitizer and the bounded sizes (blocks up to a few "
        "hundred KiB, 3-60 operations; one case in 400 has runs of up to 3000, rarely 66000, equal operations).")
_ARR = ("A case is a random block-size configuration plus 3-60 arena operations (raw/aligned allocation, allocation with cleanup, Own, "
        "Create of managed/create-only/plain/over-aligned types, CreateArray, resource allocation, Reset, move, fault, queries) with sizes "
        "biased to block and threshold borders. Non-trivial: ")
prop("A01", "arena_h.cc", ARENA, _ARR + "at least one later block was opened by an allocation after others.", 300000, 6000000, _AR, _ARN)
prop("A02", "arena_h.cc", ARENA, _ARR + "three or more cleanups pending over more than one block, or a reset of several blocks with pending cleanups, or a failed call.", 300000, 6000000, _AR, _ARN)
prop("A03", "arena_h.cc", ARENA, _ARR + "a reset of several blocks with pending cleanups, a move of the arena, or a failed call.", 300000, 6000000, _AR, _ARN)
prop("A04", "arena_h.cc", ARENA, _ARR + "at least one call failed because of an injected block-allocation failure or an unrepresentable size.", 300000, 6000000, "fault-injecting stateful property testing, shrinking, ASan+UBSan", _ARN)
prop("A05", "arena_h.cc", ARENA, _ARR + "addresses probed while several blocks and a pending cleanup existed.", 300000, 6000000, _AR, _ARN)
prop("A08", "arena_h.cc", ARENA, _ARR + "a block switch, a move or a reset of several blocks with the hooks installed.", 300000, 6000000, _AR, _ARN)
prop("A09", "arena_h.cc", ARENA, _ARR + "a later block was requested by an allocation.", 300000, 6000000, _AR, _ARN)

prop("A06", "arena_pmr_h.cc", ARENA, "A case is 4-60 operations on up to 8 pmr containers (vectors of plain, over-aligned and string elements, list, deque, map, unordered_map, string) bound to two arenas, mirrored on default-resource containers, with arena moves, resets, replacement, cross-arena assignment and failing block allocations. Non-trivial: an arena moved under non-empty containers, an assignment across arenas, a surfaced bad_alloc, or more than three blocks in use.", 500000, 12000000, "differential stateful property testing (default resource as reference), fault injection, shrinking, ASan+UBSan", _ARN)
prop("A07", "arena_pmr_h.cc", ARENA, "A case is 2-40 object or array creations over 31 construction routes (plain, move-only and reference arguments, allocator-aware types, types taking the arena, pmr containers and strings, variants, over-aligned types, arrays), arena moves, resets and failing block allocations; every object is re-checked after every step. Non-trivial: at least three creations of which one stores memory through the arena's resource.", 600000, 14000000, "differential property testing (direct construction as reference), shrinking, ASan+UBSan", _ARN)
_M = "Random exploration; the recount in the harness is the oracle. Time is simulated (steady_clock::now is replaced in the harness), lifetimes are compared in whole milliseconds as the code defines them."
prop("M01", "metrics_h.cc", METRICS, "A case is 3-50 arena operations and direct probe calls (allocations around bucket borders, lifetimes around bucket borders, other threads, local resets) recounted by the harness. Non-trivial: six or more operations with two or more allocations and a destroyed arena.", 240000, 6000000, "model-based property testing with a simulated clock, shrinking, ASan+UBSan", _M, variants=("dbg", "opt"))
prop("M02", "metrics_h.cc", METRICS, "A case is either 3-40 interleaved counting/reporting/resetting steps over up to four local metrics objects, or scripts of events, reports and summaries for 2-4 real threads. Non-trivial: two or more reports, or two or more threads with two or more events.", {"dbg": 20000, "opt": 40000, "tsan": 12000}, {"dbg": 500000, "opt": 1000000, "tsan": 300000}, "model-based property testing, randomised concurrent scripts under ThreadSanitizer, shrinking", _M + " Thread schedules are those the machine produces, not enumerated.", variants=("dbg", "opt", "tsan"))
prop("L01", "align_h.cc", [], "A case is 10-80 roundings with boundaries 2^3..2^63 and arbitrary block sizes, arguments biased to multiples, powers of two and the end of the range; compared with 128-bit arithmetic. Non-trivial: three or more arguments next to a multiple.", 2000000, 40000000, "property testing against a 128-bit arithmetic oracle", "Random exploration against exact arithmetic.", variants=("dbg", "opt"))
prop("L02", "align_h.cc", [], "A case is 10-80 literal tokens with units KB/MB/GB biased to changes of digit count and the largest representable values, evaluated at run time, plus values computed in constant expressions (chosen by the seed at compile time). Non-trivial: at least one token of six or more digits.", 2000000, 40000000, "property testing against an arithmetic oracle", "Random exploration against exact arithmetic.", variants=("dbg", "opt"))

STR = ["arena/arena.cc"]
_ST = "stateful model-based property testing against std::string, shrinking, ASan+UBSan"
_STN = ("Random exploration against std::basic_string over char, wide, UTF-16 and arena strings; debug build (assertions on, small-string "
        "optimisation off), release build under ASan+UBSan (small strings on) and optimised release build (word-wise copying on); no absence proof.")
_SV = ("dbg", "rel", "opt")
prop("S01", "string_h.cc", STR, "A case is 3-60 operations over a pool of up to 5 strings of one character type and storage: every construction, assignment, append, insert, erase, replace, resize and element-write overload, moves, swaps, copies and clones, lengths biased to the borders of the small/medium/large classes and to capacities; after each step contents, size and return values are compared. Non-trivial: four or more edits, at least two of which crossed a size class border, with a large string involved.", 400000, 12000000, _ST, _STN, variants=_SV)
prop("S02", "string_h.cc", STR, "A case is 3-60 sharing operations (copy, clone, assign, move, swap, destroy) and edits or writes through references, iterators and data pointers over a pool of strings, half of them large; after each step every member of the pool is compared with its own model and the heap balance is checked at the end. Non-trivial: an edit of shared storage and two or more sharing transitions.", 400000, 12000000, _ST, _STN + " Writing through the mutable data() of a shared string is a recorded finding, demonstrated from known/S02-data.replay and otherwise left out.", variants=_SV)
prop("S03", "string_q_h.cc", STR, "A case is a haystack and 3-60 queries (all search families in all overload forms, substr, copy, access, iteration, conversions) with needles cut from the haystack, mutated, repetitive or empty, passed from exact-size heap buffers, at positions around every border and npos. Non-trivial: at least two found and one missed search.", 400000, 12000000, "differential property testing against std::string, shrinking, ASan+UBSan", _STN, variants=_SV)
prop("S04", "string_q_h.cc", STR, "A case is 3-40 pairs of contents (equal, prefix, one character changed, embedded NULs, high bytes) built in different representations, compared by every operator and compare overload against every operand type, hashed, and used as keys of std containers. Non-trivial: at least one equal pair in different representations and one pair that differs in one place.", 300000, 9000000, "differential property testing against std::string, metamorphic hashing relation, shrinking, ASan+UBSan", _STN, variants=_SV)
prop("S05", "string_h.cc", STR, "A case is 3-60 edits, reserves, shrinks, copies and clears over a pool of strings with capacity, terminator and addresses observed around each one. Non-trivial: two or more edits within the capacity of an unshared string with watched addresses and a reserve or shrink.", 400000, 12000000, "stateful invariant-based property testing, shrinking, ASan+UBSan", _STN, variants=_SV)
prop("S06", "string_q_h.cc", STR, "A case is 3-30 calls over a pool of strings with invalid positions, null pointers, counts over the whole 64-bit range, and malloc/realloc (or the arena's block allocator) failing at a chosen call; the exception type, the former value and later usability are checked, also on strings sharing the storage. Non-trivial: two or more exceptions of which one from memory.", 300000, 9000000, "fault-injecting property testing, shrinking, ASan+UBSan", _STN, variants=_SV)
PROPS["S06"]["link"] = ["-Wl,--wrap=malloc", "-Wl,--wrap=realloc"]
prop("S07", "string_q_h.cc", STR, "A case is one of: 3-24 extractions and line reads from a stream delivered in small pieces with widths, flags, delimiters, exception masks; insertions with width, fill and adjustment; concatenations in all operand combinations; fmt formatting with random specs; each next to std::string on a twin stream. Non-trivial: two or more successful reads of which one with a special setting, or two padded outputs, non-trivial concatenations or specs.", 300000, 9000000, "differential property testing against std::string on twin streams, shrinking, ASan+UBSan", _STN, variants=_SV)
prop("S08", "string_h.cc", STR, "A case is 3-60 operations over strings bound to up to four arenas (and strings of the default resource in release builds): edits, copies, moves, clones, assignments and swaps across arenas, shared large strings, destruction of arenas after their own strings; each buffer is looked up in the arena of get_allocator(). Non-trivial: an operation across arenas with four or more strings that own a buffer.", 300000, 9000000, _ST, _STN, variants=_SV)
prop("S09", "string_h.cc", STR, "A case is 3-30 edits whose argument points into the edited string (pointer and length, terminated pointer, view, substring of itself, iterators, character reference), shared or not, with and without spare capacity; the reference runs on a copied argument. Non-trivial: three or more such edits of which one outgrew the capacity.", 300000, 9000000, "metamorphic property testing (aliased against copied argument), shrinking, ASan+UBSan", _STN, variants=_SV)

VEC = ["arena/arena.cc"]
_VT = "stateful model-based property testing against std::vector, shrinking, ASan+UBSan"
_VTN = ("Random exploration against std::vector over 18 element types (scalars, one-byte, over-aligned, relocatable, registered copyable, move-only "
        "and copy-only types, strings); debug build (assertions on), release build under ASan+UBSan and optimised release build; no absence proof.")
_VR = ("A case is an element type and 3-60 edits over a pool of up to three vectors: every construction, assignment, insertion, emplacement, erasure, resize, "
       "push and swap overload, with source ranges of eleven iterator kinds, positions and counts biased to the ends, zero and the capacity. ")
prop("V01", "vector_h.cc", VEC, _VR + "Contents and return values are compared after every step. Non-trivial: three or more edits of which one replaced the buffer and one shifted elements.", {"dbg": 80000, "rel": 100000, "opt": 250000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, _VT, _VTN + " The position returned by range erase is a recorded finding, demonstrated from known/V01-erase.replay.", variants=_SV)
prop("V02", "vector_h.cc", VEC, _VR + "The element types register every construction, copy, move and destruction by address; the number of live elements is compared after every step and the heap balance at the end. Non-trivial: three or more edits of which one replaced the buffer and one shifted elements.", {"dbg": 80000, "rel": 100000, "opt": 250000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, _VT, _VTN, variants=_SV)
prop("V03", "vector_h.cc", VEC, "A case is an element type and 3-60 edits, reserves, shrinks, swaps, moves and runs of pushes with capacity, buffer address and identities of elements observed around each one. Non-trivial: two or more edits within the capacity under observation and a reserve.", {"dbg": 45000, "rel": 55000, "opt": 150000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, "stateful invariant-based property testing, shrinking, ASan+UBSan", _VTN, variants=_SV)
prop("V04", "vector_h.cc", VEC, "A case is an element type and 3-60 write buffers, fills and unchecked pushes, emplacements, insertions and resizes of sizes around zero, the spare capacity and beyond it, mixed with checked edits. Non-trivial: two or more bulk writes of which one grew the vector.", {"dbg": 80000, "rel": 100000, "opt": 250000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, _VT, _VTN, variants=_SV)
prop("V05", "vector_h.cc", VEC, "A case is an element type and 3-40 edits whose argument is an element of the vector, or a part of one, at any index and position, on full and non-full vectors; the reference runs on a copied argument. Non-trivial: three or more such edits of which one replaced the buffer.", {"dbg": 80000, "rel": 100000, "opt": 250000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, "metamorphic property testing (aliased against copied argument), shrinking, ASan+UBSan", _VTN, variants=_SV)
prop("V06", "vector_h.cc", VEC, "A case is an element type and 3-40 edits, copies and constructions with the k-th allocation or the k-th element construction failing, and counts over the whole 64-bit range; exception, former contents, live elements and heap balance are checked. Non-trivial: a failed allocation and a second failure of any kind.", {"dbg": 80000, "rel": 100000, "opt": 250000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, "fault-injecting property testing, shrinking, ASan+UBSan", _VTN, variants=_SV)
PROPS["V06"]["link"] = ["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=aligned_alloc"]
prop("V07", "vector_h.cc", VEC, "A case is 3-40 iterator walks, comparisons (also of NaN-bearing vectors), standard algorithms over sub-ranges and formattings over a pool of vectors mirrored by std::vector. Non-trivial: two or more iterator walks and a comparison.", {"dbg": 200000, "rel": 250000, "opt": 800000}, {"dbg": 4000000, "rel": 6000000, "opt": 15000000}, "differential property testing against std::vector, shrinking, ASan+UBSan", _VTN, variants=_SV)
for _p in ("V01", "V02", "V03", "V04", "V05", "V06", "V07"):
    PROPS[_p]["parts"] = 3

OPT = ["optparse/optparse.cc"]
_OT = "model-based property testing of declarations and command lines, shrinking, ASan+UBSan"
_OTN = ("Random exploration against a model of declarations, actions and types written from the documentation and the tests; debug build, release build under "
        "ASan+UBSan and optimised release build; no absence proof. Numeric texts are those on which the language's conversions agree.")
_OC = {"dbg": 300000, "rel": 300000, "opt": 1500000}
_OCT = {"dbg": 6000000, "rel": 6000000, "opt": 30000000}
prop("O01", "optparse_h.cc", OPT, "A case is a parser with 1-6 declared options (all actions and types, choices, prefixes) and a command line of up to 12 arguments: declared names, near misses, name=value, values admitted or not, prefixes alone, empty and arbitrary strings; consumed and reported arguments are recounted by the model. Non-trivial: at least one argument consumed and two reported.", _OC, _OCT, _OT, _OTN, variants=_SV)
prop("O02", "optparse_h.cc", OPT, "A case is a parser with 1-6 declared options configured at once or later, environment variables, defaults and a command line with spellings of the same option varied, or a history of puts into the value store; every value of every type is compared. Non-trivial: a consumed argument, two or more set and one unset destination, or three or more stored values of which one repeated.", _OC, _OCT, _OT, _OTN + ' The Bool text "true" is a recorded finding, demonstrated from known/O02-true.replay and otherwise left out.', variants=_SV)
prop("O03", "optparse_h.cc", OPT, "A case is 2-8 parses of different command lines on one parser, its copies and moved-to successors, other parsers and the same declarations in another order, each compared with the first result for that command line. Non-trivial: a command line parsed again, and a copy, a move or another order.", {"dbg": 120000, "rel": 120000, "opt": 500000}, {"dbg": 3000000, "rel": 3000000, "opt": 15000000}, "metamorphic property testing (repetition, copying, reordering), shrinking, ASan+UBSan", _OTN, variants=_SV)
prop("O04", "optparse_h.cc", OPT, "A case is 2-12 declarations, valid or with malformed, taken, missing names or incomplete attributes, next to a twin parser that only gets the valid ones; parses and help texts of both are compared. Non-trivial: at least one declaration rejected and one taken.", {"dbg": 120000, "rel": 120000, "opt": 500000}, {"dbg": 3000000, "rel": 3000000, "opt": 15000000}, _OT, _OTN, variants=_SV)
prop("O05", "optparse_h.cc", OPT, "A case is a parser with 0-6 options, long and empty names and help texts, usage and version set or not, before and after, with texts produced and printed between declarations, and command lines that request help, usage or version. Non-trivial: two or more texts checked and two or more options.", _OC, _OCT, _OT, _OTN, variants=_SV)

prop("T01", "threads_h.cc", METRICS + OPT, "A case is one to three rounds of scripts for 2-4 real threads, each on its own strings (all storage classes), arena with metrics hooks and arena strings, vectors and parsers mirrored by models, all reading common constant strings and a constant vector; between rounds clones of strings, vectors and arenas are handed to the next thread. Non-trivial: two or more threads with a script in the same round and six or more steps.", {"tsan": 10000, "xthr": 10000, "opt": 24000}, {"tsan": 500000, "xthr": 500000, "opt": 1500000}, "randomised concurrent scripts against per-thread models under ThreadSanitizer, shrinking", "Random exploration; thread schedules are those the machine produces, not enumerated. Copies of one large string in several threads are outside the property (documented as unsafe). One variant has the library's own cross-thread checker on.", variants=("tsan", "xthr", "opt"))

# cases with objects of several GB (--scale 1), on one more worker
for _p, _q in (("V01", 5), ("S01", 6), ("S02", 5), ("S03", 5), ("S04", 5), ("S09", 6)):
    PROPS[_p]["giants"] = {"quick": _q, "thorough": 60}
