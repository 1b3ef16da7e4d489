#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
AR = ["arena/arena.hpp", "arena/arena.cc"]
# ------------------------------------------------------------------ arena
p("A01", "Arena allocations are in-block, aligned, disjoint and keep their contents",
  "Every non-null pointer an arena hands out (raw aligned allocation, allocation with cleanup, object, array, or allocation through its memory resource) is aligned as requested (at least 8 bytes; 16 and 32 on request or when the type needs it) and covers at least the requested bytes inside one memory block the arena currently holds. It overlaps neither another live allocation nor the arena's own bookkeeping (block headers, pending cleanup records). What the user writes there stays unchanged by any later arena operation until the arena is reset or destroyed.",
  ["inputs", "histories", "configurations"],
  "All block-size configurations, all sequences of allocation calls of every kind with any sizes (including 0 and sizes around what a block still holds) and alignments 8/16/32, on blocks whose base address is 16- or 32-aligned.",
  "The tests allocate a handful of fixed sizes from 1-4 KiB blocks and compare a few addresses; the interplay of size, alignment waste, cleanup records growing from the other end and block switching is quantified over all histories.",
  AR, [("bump allocation with alignment waste", "arena/arena.hpp Block::alloc/AlignPos/has_enough_space"), ("block switch", "arena/arena.cc Arena::allocateAligned/newBlock")],
  ["returned pointers", "contents of allocations", "check()"])
p("A02", "Arena cleanups run exactly once, in reverse order, while all memory is alive",
  "Every object created with a destructor, every owned object and every registered cleanup callback is run exactly once, with its own element, when the arena is next reset or destroyed, in the reverse of the order in which they were registered; what a running cleanup itself registers is run in the same way, next. All of them run before the arena returns any memory block, so a cleanup may still use anything allocated from the arena. Objects of trivially destructible types or types tagged create-only are never destroyed by the arena, and a failed registration leaves nothing pending.",
  ["histories", "configurations", "fault_sequences"],
  "All interleavings of Create/Own/cleanup registration with plain allocations across any number of blocks, resets, moves of the arena and failing block allocations.",
  "The tests register at most three callbacks in one block and test that each flag was set; order, exactly-once over resets and multi-block lifetimes are never observed.",
  AR + ["arena/arenahelper.hpp"], [("cleanup records at the end of each block, run from newest to oldest", "arena/arena.hpp Block::run_one_cleanup, Arena::run_all_cleanups, free_all_blocks, free_blocks_except_head, Reset"), ("destructor skipping", "arena/arenahelper.hpp is_destructor_skippable")],
  ["destructor and callback invocations", "block_dealloc calls"])
p("A03", "Arena blocks are conserved: each returned once, space figures are exact",
  "Every block obtained from the configured allocator is returned to the configured deallocator exactly once, at reset (all but the first block) or at destruction (all). At every moment the reported allocated space equals the total size of the blocks held, the reported remaining space equals the unused part of the newest block, the number of pending cleanups equals the registrations not yet run, and reset returns the space that was held before it and leaves the first block empty and reusable. A moved-from arena owns nothing and the moved-to arena owns everything.",
  ["histories", "configurations", "fault_sequences"],
  "All sequences of allocations, resets (also of an arena that never allocated), moves and destruction, with any block sizes and with failing block allocations.",
  "Tests look at one or two blocks after one or two calls; conservation must hold over any history.",
  AR, [("block list and _space_allocated", "arena/arena.hpp Arena, arena/arena.cc newBlock"), ("Reset", "arena/arena.hpp Arena::Reset")],
  ["block_alloc/block_dealloc calls", "SpaceAllocated()", "SpaceRemains()", "cleanups()", "Reset() result"])
p("A04", "Arena reports exhaustion by null and stays fully usable",
  "When the block allocator fails, or the requested size cannot be represented, every allocating call returns null (false for ownership transfer) instead of a pointer to less memory than asked. A failed call disturbs nothing: earlier allocations keep their contents, no object stays constructed, no cleanup stays pending for it, no allocation is reported to the allocation hook, and later requests that can be satisfied succeed.",
  ["inputs", "fault_sequences", "histories"],
  "Any sequence of calls with any subset of block allocations failing, and request sizes over the whole 64-bit range including those near its maximum.",
  "The tests have one allocator that always fails and no size near the overflow points.",
  AR, [("null propagation", "arena/arena.cc allocateAligned/newBlock; arena/arena.hpp Create/CreateArray/addCleanup")],
  ["return values", "hook calls", "SpaceAllocated()", "cleanups()"])
p("A05", "Arena containment query classifies every address correctly",
  "For any address the containment query answers whether it lies in a block the arena holds and in which part: block header, used space, unused space, or pending cleanup records. Every byte of every live allocation is reported as used, each pending cleanup accounts for exactly one record of cleanup space, and any address outside all held blocks (including the byte just past a block, memory of other arenas and returned blocks) is reported as not contained.",
  ["inputs", "histories"],
  "All addresses relative to every block (first, last, boundaries, outside) after any history of allocations, cleanups, resets and moves.",
  "The test probes ten addresses in a single block.",
  AR, [("interval tests over the block list", "arena/arena.cc Arena::check")], ["check()"])
p("A06", "Containers on the arena's memory resource behave as on the default one",
  "A standard polymorphic-allocator container or string using the arena's memory resource holds at all times exactly what the same operations produce with the default resource, and all of its storage lies in that arena, aligned as its elements need (up to 32 bytes), until the arena is reset or destroyed. Memory resources compare equal exactly when they belong to the same arena, and exhaustion surfaces as std::bad_alloc with the container unchanged. After an arena is moved, the resource and containers obtained before the move keep working on the moved-to arena.",
  ["histories", "inputs", "fault_sequences"],
  "All operation histories over pmr vector, string, list, map, deque and unordered containers with scalar and nested elements, alternating with raw arena use, moves of the arena and failing block allocations.",
  "Tests create a few short containers and check one address.",
  AR, [("memory_resource::do_allocate/do_is_equal", "arena/arena.hpp Arena::memory_resource"), ("resource hand-over", "arena/arena.hpp Arena(Arena&&)")],
  ["container contents", "check() of element addresses", "operator== on resources"])
p("A07", "Arena Create builds the same object as direct construction, inside the arena",
  "Creating an object through the arena with given arguments yields an object equal to one constructed directly from those arguments: types accepting a polymorphic allocator as last argument get the arena's resource, types whose constructor takes the arena first get this arena, all others get exactly the arguments. The object and, for allocator-aware types, everything it stores initially or later lies in the arena; created arrays have every element value-initialised.",
  ["inputs", "programs"],
  "All argument values, over a family of types covering every construction route (plain, tagged, allocator-aware, arena-aware, arrays, over-aligned).",
  "Tests create one value per type and rarely look at the fields or where nested storage lives.",
  AR + ["arena/arenahelper.hpp"], [("Construct dispatch", "arena/arena.hpp Arena::Construct, Create, CreateArray")], ["object fields", "check()"])
p("A08", "Arena lifecycle hooks report each event exactly once with true figures",
  "The init hook runs once per arena and its result is passed as cookie to every later hook; the allocation hook runs exactly once per successful allocating call on the arena itself (raw memory, memory with cleanup, object, array; not for what containers obtain through the memory resource) with the type (none for raw memory) and the requested number of bytes; the new-block hook runs once per block obtained, with the number of blocks held before it and the block's size. The reset and destruction hooks run once per reset and once per arena, with the space held and the space left unused in all blocks at that moment. Unset hooks are skipped.",
  ["histories", "configurations"],
  "All histories of allocations, resets, moves and destruction, with any subset of the hooks installed.",
  "Tests count calls of each hook in one fixed history and ignore the reported numbers.",
  AR, [("hook invocation", "arena/arena.hpp Create/CreateArray/AllocateAligned/Reset/~Arena; arena/arena.cc newBlock")], ["hook arguments"])
p("A09", "Arena block sizes follow the configured sizing policy",
  "The first block has the suggested initial size, later blocks the normal size while the request and its bookkeeping fit, then the request rounded up to a multiple of the normal size up to a quarter of the huge size, then the huge size; a request that does not fit the size so chosen gets a block of just its own size plus bookkeeping. A new block is requested only when the newest block cannot hold the request, so no call obtains more than the blocks it needs.",
  ["inputs", "configurations", "histories"],
  "All request sizes (each side of every threshold) on first and later blocks, for all normal/huge/suggested size combinations.",
  "Tests try about five sizes with one configuration.",
  ["arena/arena.cc", "align/align.hpp"], [("newBlock", "arena/arena.cc Arena::newBlock")], ["sizes passed to block_alloc"])
# ------------------------------------------------------------------ metrics
MT = ["arena/metrics.hpp", "arena/metrics.cc"]
p("M01", "Per-thread arena metrics equal the history of events",
  "After any history, the thread-local metrics equal what counting the arena events of that thread gives: arenas initialised and destroyed, allocations, blocks, resets, and the byte totals allocated, held at reset, held at destruction and wasted. Each allocation falls in exactly the smallest size bucket that covers it, each destroyed arena in exactly the smallest bucket covering its lifetime in whole milliseconds (none when larger than all), and allocated bytes are attributed to the source location given to the init hook.",
  ["histories", "inputs"],
  "All interleaved histories of several arenas wired to the metric probes, with sizes on both sides of every bucket border.",
  "The tests use three fixed arenas and sizes.",
  MT, [("metrics_probe_on_arena_*", "arena/metrics.hpp")], ["local_arena_metrics"])
p("M02", "Reporting conserves metrics: global totals are the exact sum of all reports",
  "Reporting adds every local counter, distribution and per-location total to the process-wide metrics and clears the local ones, so that at quiescence the global figures equal the sum of all events reported since the last reset, no matter how many threads report concurrently or how reports interleave with events. The textual summary shows exactly these figures and never fails, also when nothing has been counted yet.",
  ["histories", "schedules"],
  "All histories of events, reports and resets on one thread, and any number of threads reporting concurrently (sampled schedules).",
  "The tests report from one thread in a fixed order.",
  MT, [("report_to_global_metrics", "arena/metrics.hpp LocalArenaMetrics"), ("string()", "arena/metrics.hpp GlobalArenaMetrics")], ["global_arena_metrics", "string()"])
# ------------------------------------------------------------------ align / literals
p("L01", "Rounding helpers return the least multiple not below the argument",
  "Rounding n up to a power-of-two boundary, or to any positive block size, returns the smallest multiple of that boundary that is at least n, for every n for which that multiple is representable in 64 bits.",
  ["inputs"], "All 64-bit n and all boundaries (powers of two from 8; any positive block size).",
  "Tests sample a few dozen small values.",
  ["align/align.hpp"], [("AlignUpTo/AlignUp", "align/align.hpp")], ["return value"])
p("L02", "Size literals scale decimal numbers exactly",
  "A decimal literal with suffix _KB, _MB or _GB denotes its value times 2^10, 2^20 or 2^30 exactly, for every number of digits and every value whose product is representable in 64 bits, in constant and run-time evaluation alike.",
  ["inputs"], "All decimal digit strings (with leading zeros) whose scaled value fits 64 bits.",
  "Tests check a handful of literals.",
  ["memory.hpp"], [("operator\"\"_KB/_MB/_GB", "memory.hpp")], ["return value"])
# ------------------------------------------------------------------ string
ST = ["string/string.hpp"]
p("S01", "String edit histories give the same contents as std::string",
  "After any sequence of constructions, assignments, appends, inserts, erases, replaces, resizes, pushes, pops, swaps, clears, moves and element writes, the library string holds exactly the characters, size and return values that std::string has after the same calls. This holds at every length, across the small, medium and large representations and all transitions between them, and for strings with embedded NULs.",
  ["histories", "inputs"],
  "All operation histories with in-range arguments from every overload (string, view, pointer, pointer+length, count+character, iterators, initializer list), lengths around every representation boundary, in debug and release builds.",
  "The existing tests run a fixed randomised comparison in debug builds only (small-string code and release-only fast paths are disabled there) and never mix copies, moves and edits over long histories.",
  ST, [("fbstring core: small/medium/large layout", "string/string.hpp string_core"), ("editing operations", "string/string.hpp basic_string")], ["size()", "data()", "return values"])
p("S02", "String copies are independent values; shared storage is never observable",
  "A copy, clone, assigned or moved-to string keeps its value whatever is done afterwards to the string it came from or to any other copy, by any mutating operation or writable access obtained after the copy was made (element references, mutable iterators, mutable data pointer). Storage shared between copies is released exactly when the last of them goes away, never earlier, never twice; a moved-from string is a valid string that can be reused.",
  ["histories"],
  "All histories over a pool of strings mutually copied, cloned, moved, swapped, assigned and edited, at all lengths and in any destruction order.",
  "Tests copy a string once and edit one side; the reference-counted copy-on-write of long strings depends on whole sharing histories.",
  ST, [("RefCounted copy-on-write, unshare, clone", "string/string.hpp string_core::mutableDataLarge/unshare, RefCounted")], ["contents of every pool member", "heap balance under AddressSanitizer"])
p("S03", "String searches and views agree with std::string",
  "find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, contains, starts_with, ends_with, substr, copy, element access, iteration in both directions and conversion to std::string, string view and other string types give, for every argument and start position, the results std::string gives for the same contents. Arguments given by pointer and length or as a view are honoured by their length, not by a terminator.",
  ["inputs"],
  "All pairs of haystack and needle (random and highly repetitive, embedded NULs, empty, unterminated needles) and all positions including npos.",
  "The tests compare some of these on random alphabetic strings of moderate length.",
  ST, [("search operations", "string/string.hpp basic_string find family")], ["return values"])
p("S04", "String comparison, ordering and hashing are consistent with contents",
  "All comparison operators and compare overloads, between two library strings and between a library string and std::string, string views and C strings on either side, order by unsigned lexicographic content exactly as std::string does. Strings with equal contents are equal, hash equally and are interchangeable as keys in ordered and unordered containers regardless of representation, capacity or sharing.",
  ["inputs"],
  "All pairs of contents (equal, prefix-related, differing in one byte, embedded NULs, bytes above 127) in all representations.",
  "The tests compare a few literals.",
  ST, [("operator==, operator<=>, compare, hash", "string/string.hpp")], ["operator results", "std::hash values", "container lookups"])
p("S05", "String storage contract: terminator, capacity, reserve and address stability",
  "At all times size is at most capacity, and the character after the last one is NUL through every accessor. Reserve makes the capacity at least what was asked without changing contents, after which pushes, appends, inserts, resizes, erasures, clears and element writes that stay within the capacity of an unshared string move nothing (pointers and references to characters stay valid); shrinking never loses contents, never raises capacity beyond what an empty string has, and leaves no more than twice the capacity the contents need; growth one character at a time (push_back, append, +=) is geometric, so that it reallocates logarithmically often.",
  ["histories", "inputs"],
  "All histories of edits, reserves, shrinks, copies and clears at all lengths.",
  "The tests check capacity in a few fixed sequences.",
  ST, [("reserve/expandNoinit/shrink", "string/string.hpp string_core")], ["capacity()", "data()[size()]", "data() addresses"])
p("S06", "String operations with invalid arguments throw and leave the string unchanged",
  "A position beyond the size in any overload that takes one raises std::out_of_range, a null pointer given for a terminated string to a constructor, append, assign, insert, replace or compare raises std::logic_error, and a length that cannot be represented or allocated raises std::length_error or std::bad_alloc. After such an exception the string has its former value and is fully usable.",
  ["inputs", "histories", "fault_sequences"],
  "All overloads taking positions or lengths, with positions at, just beyond and far beyond the size (npos), null pointers, huge counts, and failing memory allocation, in every representation.",
  "The tests probe a couple of at() and substr() failures.",
  ST, [("enforce checks", "string/string.hpp basic_string"), ("checkedMalloc/goodMallocSize", "string/string.hpp")], ["exception types", "contents after the exception"])
p("S07", "String stream, line, concatenation and format I/O agrees with std::string",
  "Writing a library string to a stream honours width, fill and adjustment and writes every character; reading by extraction or by line (any delimiter) stores the same characters and leaves the stream in the same state and position as std::string would, also when the source of the stream fails with an exception. Formatting with fmt, concatenation with operator+ in all operand combinations, and conversion to std::string yield the same text as for std::string.",
  ["inputs", "histories"],
  "All stream contents, widths, flags and sequences of extractions, at all string lengths and with embedded NULs.",
  "The tests read a few fixed lines.",
  ST, [("operator<<, operator>>, getline, fmt::formatter, to_string", "string/string.hpp")], ["stream contents and state", "formatted text"])
p("S08", "Arena strings behave as std::string and keep all storage in their arena",
  "A string using a polymorphic allocator bound to an arena has after any history of operations the same value as std::string, and every character buffer it uses lies in the arena its allocator is bound to (get_allocator()). Copies, moves, clones, assignments and swaps, also between strings of different arenas or the default resource, give the right values and never leave a string using memory of an arena it is not bound to, so destroying one arena (after its own strings) never affects strings bound to another.",
  ["histories", "inputs", "configurations"],
  "All histories over pools of arena strings bound to several arenas, at all lengths, with arenas destroyed in any order.",
  "The tests do short edits of single strings in a single arena.",
  ["string/arena_string.hpp", "string/string.hpp", "arena/arena.hpp"], [("allocator propagation", "string/arena_string.hpp arena_string_core / basic_string")], ["contents", "check() of buffers", "AddressSanitizer"])
p("S09", "String edits accept arguments that alias the string being edited",
  "Appending, inserting, replacing, assigning or comparing with a pointer, view, character reference or iterator range into the string being edited gives the result obtained when the argument is copied beforehand, at every offset and length, whether or not the edit reallocates or the storage is shared with another string.",
  ["inputs", "histories"],
  "All edits with self-aliasing arguments at all offsets/lengths, all representations, shared and unshared, with and without spare capacity.",
  "The tests have two or three aliasing examples.",
  ST, [("replaceAliased, append aliasing, assign aliasing", "string/string.hpp basic_string")], ["contents compared with a non-aliased run"])
# ------------------------------------------------------------------ vector
VE = ["container/stdb_vector.hpp"]
p("V01", "Vector operation histories give the same contents as std::vector",
  "After any sequence of constructions, assignments, insertions, emplacements, erasures (by position, range, value or predicate), resizes, pushes, pops, swaps, copies and moves, the vector holds exactly the elements std::vector has after the same calls, and every call returns the corresponding value or iterator position. This holds for every element type: trivial, non-trivial, move-only, copy-only and types marked relocatable, and for source ranges of any iterator category.",
  ["histories", "inputs", "programs"],
  "All in-range operation histories over several element types and source ranges (pointers, own iterators, list, deque and reverse iterators, converting ranges), including empty ranges and zero counts.",
  "The tests run each operation once or twice on short vectors of ints and small mock types.",
  VE, [("element moving and construction helpers", "container/stdb_vector.hpp core, copy_from_iterator, move_range_*"), ("modifiers", "container/stdb_vector.hpp stdb_vector")], ["contents", "return values"])
p("V02", "Vector elements are constructed and destroyed exactly once",
  "Every element object the vector constructs, including the temporaries left behind by moving elements, is destroyed exactly once, and at any moment the number of live elements owned by the vector equals its size. This also holds when the constructor of an element throws in the middle of an operation. No operation reads, assigns to or destroys an object outside its lifetime, and destroying the vector releases all memory and all resources of its elements.",
  ["histories", "programs"],
  "All operation histories over element types that register their own construction, assignment, move and destruction, including types whose moved-from state still owns a resource.",
  "Tests count constructor calls in a few single operations.",
  VE, [("destroy_range, move_range_forward, move_backward, realloc_with_move", "container/stdb_vector.hpp")], ["lifetime registry of the element type", "heap balance"])
p("V03", "Vector capacity, reserve and element address guarantees",
  "Size never exceeds capacity; reserve makes capacity at least what was asked and never shrinks; shrink-to-fit makes capacity equal to size; growth by repeated push is geometric. No operation that stays within the capacity moves elements in front of the modified position, so data pointers, references and iterators to them remain valid, and swap and move hand over the buffer without touching elements.",
  ["histories", "inputs"],
  "All operation histories mixing growth, reserve, shrink, erase, swap and move.",
  "Tests check a few capacities.",
  VE, [("reserve, shrink_to_fit, compute_next_capacity", "container/stdb_vector.hpp")], ["capacity()", "data() and element addresses"])
p("V04", "Bulk-write interfaces and unchecked variants append exactly what was written",
  "Obtaining a write buffer of n elements (of trivially copyable type) extends the vector by exactly n, keeps all existing elements, and what is written through the buffer is what the vector then holds; filling through a callback grows capacity as the callback's announced size requires and appends exactly the number of elements it reports. Unchecked variants of push, emplace, insert and resize, called with sufficient capacity, have the same effect as the checked ones.",
  ["histories", "inputs"],
  "All sequences of bulk writes of any size (including zero) on vectors of any size and spare capacity, interleaved with other edits.",
  "Tests obtain one buffer on an empty or reserved vector.",
  VE, [("get_writebuffer, fill, Safety::Unsafe overloads", "container/stdb_vector.hpp")], ["contents", "size()", "capacity()"])
p("V05", "Vector edits accept arguments that refer to the vector's own elements",
  "Pushing, inserting, emplacing, resizing or assigning one value or repeated copies of it, where the value is given by a reference to an element of the same vector (or to a part of such an element), stores the value it had before the call, at any position, whether or not the operation reallocates. Erasing the elements equal to one of them erases exactly those.",
  ["inputs", "histories"],
  "All single-element and repeated-value edits with every source index, every position, full and non-full vectors, for trivial and non-trivial element types.",
  "One test pushes a vector's own elements back.",
  VE, [("realloc_and_emplace_back constructs before moving", "container/stdb_vector.hpp"), ("insert/assign/resize", "container/stdb_vector.hpp")], ["contents"])
p("V06", "Vector allocation failure throws and leaves the vector intact",
  "When memory cannot be obtained, the requested number of elements cannot be represented, or a new element cannot be constructed because its constructor throws, a growing operation throws (std::bad_alloc, std::length_error or the element's exception) instead of returning with too small a buffer or a half-made element. The vector then still holds its former elements, or is validly empty for whole-content assignment, can be used and destroyed, and no element or memory is leaked or freed twice. (Element types whose moves, or copies when they cannot be moved, throw are not supported by the vector.)",
  ["inputs", "fault_sequences", "histories"],
  "All growing operations with every allocation failing in turn, and counts over the whole size range.",
  "No test makes an allocation fail.",
  VE, [("allocate, realloc_with_move", "container/stdb_vector.hpp")], ["exceptions", "contents afterwards", "heap balance"])
p("V07", "Vector iterators, comparisons and formatting follow the sequence",
  "Iterator arithmetic, dereference, comparison, const conversion and reverse iteration address exactly the elements index access gives, and standard algorithms over the iterators give the same results as over std::vector. Equality and ordering of vectors are the lexicographic ones of std::vector, also for element types that are only partially ordered, and formatting prints the same text as for std::vector.",
  ["inputs"],
  "All vectors and pairs of vectors of several element types and all iterator positions and offsets.",
  "Tests iterate forward over short vectors.",
  VE, [("IteratorT, operator==, operator<=>", "container/stdb_vector.hpp")], ["iterator results", "comparison results", "formatted text"])
# ------------------------------------------------------------------ optparse
OP = ["optparse/optparse.hpp", "optparse/optparse.cc"]
p("O01", "Option parsing accounts for every command-line argument",
  "Every argument after the program name is either consumed by exactly one declared option (as its name, alone or in the form name=value, or as one of its values) or reported, unchanged and in the original order, among the unrecognised ones, as strings and as the argument vector left to the caller. No argument is dropped, invented or reported twice, and no argument vector makes parsing crash or hang. An option takes the next argument as its value unless that begins with the prefix, an appending option takes all that follow up to such a one; values which the declared type or choices do not admit are reported among the unrecognised ones, never stored as something else; an option that needs a value and has none left raises the documented exception.",
  ["inputs", "configurations"],
  "All option declarations (names, argument counts, types, actions) and all argument vectors built from declared flags, near-misses, values, equals-forms, separators and arbitrary strings.",
  "Tests parse about ten fixed command lines.",
  OP, [("parse_args token loop and per-option matching", "optparse/optparse.cc OptionParser::parse_args, Option::process")], ["values", "unrecognised arguments"])
p("O02", "Parsed option values equal the declared semantics",
  "For every declared option the parsed value equals what its action and type prescribe for the occurrences on the command line: the last value for store, all values in order for append, true or false for the flag actions, the number of occurrences for count. An explicitly given option always wins over its environment variable, and that over the default; absent options take their default if declared and are otherwise unset. Every short, long and prefixed spelling of an option is equivalent, and an option may be configured through the returned reference at any time before parsing, also after others were declared. An option without a destination of its own is found under its first long name without the prefix. What is put into the value store (set, append, increment) is what is read back from it (get, get_list), in order, for every type.",
  ["inputs", "configurations"],
  "All declarations of actions, types, argument counts, defaults and prefixes, and all command lines over them.",
  "Tests check fixed values for a few options.",
  OP, [("typed storing", "optparse/optparse.cc Option::process / ValueStore"), ("defaults and environment", "optparse/optparse.cc")], ["ValueStore contents"])
p("O03", "Parsing is repeatable and parsers are isolated",
  "Parsing the same command line again with the same parser gives the same result, and the outcome of a parse never depends on earlier parses, on other parsers or their declarations, or on the order in which independent options were declared. A copied or moved parser behaves as the original did, independently of it, and outlives it. Parsing does not modify the argument vector.",
  ["histories", "inputs"],
  "All sequences of parses of different command lines on one or several parsers.",
  "Every test parses once per parser.",
  OP, [("per-parse state", "optparse/optparse.cc OptionParser::parse_args")], ["ValueStore contents", "argv contents"])
p("O04", "Invalid option declarations are rejected and leave the parser usable",
  "Declaring an option with malformed names, without a name, or with names already taken raises the documented exception, an unusable prefix is rejected, and an option whose combination of action, type, default and choices has no meaning is reported by the documented exception no later than at parsing; valid declarations are never rejected. After a rejected declaration the parser behaves exactly as if it had not been attempted.",
  ["inputs", "histories"],
  "All sequences of valid and invalid declarations over all names and attribute combinations, followed by parses.",
  "Tests try a few invalid names.",
  OP, [("OptionParser::add_option, Option::validate", "optparse/optparse.cc")], ["exceptions", "later parse results"])
p("O05", "Help, usage and version output is complete and never fails",
  "The help text of any parser, including one without options, can always be produced and lists every declared option with all its names, its type and its help text, together with the usage the user set or the generated one; the version text is the one the user set. Printing writes the same text as is returned. Help, usage and version requests on the command line are recognised in every declared configuration, unless a declared option uses one of their names, without disturbing what else was set, and texts always show what is declared at that moment.",
  ["inputs", "configurations"],
  "All parsers (no, one, many options; empty and long names and help texts; custom usage, version, description) and command lines with help/version requests.",
  "Tests print one help text and inspect little of it.",
  OP, [("format_help/format_option_help/version handling", "optparse/optparse.cc")], ["returned text"])

# ------------------------------------------------------------------ threads
p("T01", "Objects that belong to different threads do not interfere",
  "Threads that each work on their own strings, arenas, vectors and option parsers, without any locking, get the results they would get alone, and no memory is accessed by two of them at once in a conflicting way. A clone of a string shares no storage with its original, of any length, so it may be given to another thread while the original stays in use; vectors and arenas may be moved to another thread. Reading a constant string or vector from several threads at the same time is safe as long as none of them copies a large string, and the library's cross-thread checker, when compiled in, does not object to any of this.",
  ["schedules", "histories"],
  "All scripts of operations for several threads on objects of their own, all hand-overs between them, and all interleavings.",
  "The tests are single-threaded except for one metrics test.",
  ["string/string.hpp", "string/arena_string.hpp", "arena/arena.hpp", "arena/metrics.hpp", "container/stdb_vector.hpp", "optparse/optparse.cc"], [("deep copy of shared storage", "string/string.hpp basic_string::clone, string_core::unshare"), ("no static state; thread-local metrics", "arena/metrics.hpp, optparse/optparse.cc"), ("cross-thread checking", "string/string.hpp string_core (CROSS_THREAD_CHECKING)")],
  ["contents", "ThreadSanitizer reports", "data() of a clone"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
