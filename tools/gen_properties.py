#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the long texts stay readable).  Run: python3 tools/gen_properties.py"""
import json, os
U = "src/utki/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [U + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in (state or [])],
            "mechanism": [{"name": n, "where": U + w} for (n, w) in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })

NOUNIT = "The runnable suite is one singleton program and one make_string() smoke test; neither calls this code"

prop("C01", "Decoding and parsing arbitrary bytes is memory safe",
 "Whatever bytes a caller hands to the text and binary decoders (base64 decoding, UTF-8 iteration and conversion from a sized buffer or from a null-terminated string, number parsing, string parsing, splitting, trimming, wrapping, prefix/suffix tests, binary deserialization), the call never touches memory outside the given buffer and executes no undefined behaviour. "
 "It always finishes, either returning or throwing a std::exception; malformed or truncated input is never a reason to crash or to read past its end.",
 ["inputs"], "for all byte strings of all lengths, valid or malformed, and all arguments (widths, delimiters, lengths, numeric types) accompanying them",
 NOUNIT + "; the upstream unit tests only feed a few well-formed strings, and only an instrumented build can see an over-read that happens to return the right value.",
 ["base64.cpp", "unicode.cpp", "unicode.hpp", "string.cpp", "string.hpp", "deserializer.cpp"],
 [("length checks before each read", "deserializer.cpp"), ("end-pointer comparison before every byte", "unicode.cpp operator++"), ("quad counting and padding strip", "base64.cpp base64_decode()"), ("view.substr based cursor", "string.cpp string_parser")],
 ["return values and exceptions of the public functions, on exact-size heap buffers under ASan/UBSan/valgrind"])

prop("C02", "base64_decode inverts RFC 4648 encoding",
 "For every byte sequence, decoding its standard base64 encoding returns exactly that byte sequence, both with the '=' padding present and with the padding omitted. "
 "Text without padding whose length leaves a single character in its last group, and padded text of fewer than four characters, is rejected with std::invalid_argument instead of yielding bytes.",
 ["inputs"], "for all byte sequences of all lengths, with padded and unpadded encodings",
 NOUNIT + "; the upstream tests decode 17 prefixes of one ASCII sentence, which use a fraction of the alphabet and no byte above 0x7f.",
 ["base64.cpp", "base64.hpp"], [("decode table", "base64.cpp decode_table"), ("quad and tail decoding", "base64.cpp base64_decode()")],
 ["base64_decode() return value"])

prop("C03", "UTF-8 and UTF-32 conversions are exact inverses",
 "Encoding any non-zero character value up to 0x7fffffff gives its unique shortest UTF-8 form (one to six bytes, null-terminated), and converting any UTF-32 string of such characters to UTF-8 and back returns the same string. "
 "Every way of starting an iteration or conversion (sized byte or char buffer, string view, std::string, null-terminated pointer) yields the same character sequence, and the end is reported exactly after the last character; an input cut inside a character delivers all the complete characters before the cut and then ends.",
 ["inputs"], "for all character values in 1..0x7fffffff, all strings of them and all cut positions, through every entry point",
 NOUNIT + "; upstream checks one sample per encoded length and one five-character string.",
 ["unicode.cpp", "unicode.hpp"], [("lead byte length decoding", "unicode.cpp utf8_iterator::operator++"), ("range ladder and byte packing", "unicode.cpp to_utf8(char32_t)")],
 ["to_utf8(), to_utf32(), utf8_iterator::character()/is_end()"])

prop("C04", "Integer and float serialization is byte-order exact and lossless",
 "Serializing an unsigned integer or a float writes exactly the bytes of its little-endian or big-endian representation (IEEE-754 bit pattern for float), nothing before or after them, and returns the address right after the last written byte. "
 "Deserializing those bytes returns the identical value (bit-identical for float, NaNs and infinities included), at any buffer alignment and in optimised as well as debug builds.",
 ["inputs", "configurations"], "for all 8/16/32/64 bit values and all 2^32 float bit patterns, at every alignment, in every build configuration",
 NOUNIT + "; upstream tries one value per width, and a strict-aliasing or partial-write mistake shows only in some builds or on neighbouring memory.",
 ["utility.hpp"], [("shift and mask loops", "utility.hpp serialize_le/serialize_be/deserialize_le/deserialize_be"), ("float bit pattern access", "utility.hpp serialize_float_*/deserialize_float_*")],
 ["output bytes, guard bytes, returned pointer, returned value"])

prop("C05", "deserializer consumes its buffer exactly, in order, within bounds",
 "Any sequence of reads and skips on a deserializer consumes the buffer front to back: each call returns precisely the next bytes interpreted as requested (views refer to the caller's memory, without copying), and the reported remaining size drops by exactly the amount consumed. "
 "A request that exceeds what is left throws std::invalid_argument and leaves the position unchanged, so that later smaller requests still succeed.",
 ["inputs", "histories"], "for all buffers and all sequences of read_*/skip calls with all lengths, including zero and huge ones",
 NOUNIT + "; upstream performs at most three successful reads in a row and never an over-long one.",
 ["deserializer.cpp", "deserializer.hpp"], [("size check then advance", "deserializer.cpp, every read_*()")],
 ["return values, size(), empty(), exceptions"], [("data", "unread remainder of the buffer", "deserializer.hpp")])

prop("C06", "string_parser moves forward by exactly what it reports",
 "For any text and any sequence of string_parser operations, the unread view is always a suffix of the original text, and each operation removes exactly the characters its documentation says: words end at the first whitespace (or given character), skipping stops where described, at most one comma is skipped by the whitespace-and-comma skip, and bounded reads return what is available. "
 "Peeking never moves the position, and reading or peeking beyond the end throws std::invalid_argument without moving it.",
 ["inputs", "histories"], "for all texts (any bytes, any length) and all sequences of parser calls and arguments",
 NOUNIT + "; upstream walks one fixed sentence with one fixed sequence of calls.",
 ["string.cpp", "string.hpp"], [("string_view cursor", "string.hpp string_parser::view"), ("scan loops", "string.cpp string_parser::*")],
 ["get_view(), size(), empty(), return values, exceptions"], [("view", "unparsed rest of the text", "string.hpp")])

prop("C07", "Numbers survive the trip through text, in every base and locale",
 "Any unsigned integer printed with utki::to_string in binary, octal, decimal or hex (with the base prefix), and any signed integer printed in decimal, is read back as the same value by string_parser, which stops exactly at the first character that cannot belong to the number; decimal text of floats and doubles is read as the correctly rounded nearest value. "
 "Text that does not start with a number is rejected with std::invalid_argument, an out-of-range number reads as zero with all its digits consumed, and none of this depends on the current C or C++ locale.",
 ["inputs", "configurations"], "for all integer values of all built-in integer types and bases, all float/double values, arbitrary trailing text, and all locales",
 NOUNIT + "; upstream reads a dozen literals, and its locale test silently does nothing when the locale is absent.",
 ["string.hpp", "string.cpp"], [("base detection", "string.hpp read_number()"), ("prefix writing and std::to_chars", "string.hpp to_string()"), ("fast_float wrapper", "string.cpp from_chars()")],
 ["to_string(), read_number<T>(), from_chars() results and consumed length"])

prop("C08", "Splitting, joining, trimming and prefix/suffix tests match their definitions",
 "Splitting by a delimiter yields one piece more than there are delimiters and joining the pieces with it restores the text exactly; splitting into words yields precisely the maximal runs of non-whitespace in order, whitespace being the six ASCII characters whatever the C or global C++ locale; trimming removes all and only the leading and/or trailing whitespace of strings of any character type and returns a view into the argument. "
 "starts_with/ends_with agree with comparing the corresponding end of the text (also when the pattern occurs elsewhere in it), concatenation equals streaming the arguments one after another, string/vector/view conversions keep every byte, and make_indentation gives depth times size spaces, or depth tabs when the size is zero.",
 ["inputs"], "for all texts, delimiters, prefixes and suffixes (any bytes, empty and repeated patterns included), through all overloads",
 NOUNIT + "; upstream uses one sample per function, none where the suffix occurs twice.",
 ["string.hpp", "string.cpp"], [("find loop", "string.hpp split()"), ("find_if on both ends", "string.hpp trim_front()/trim_back()"), ("is_space loop", "string.cpp split()"), ("search or std member", "string.hpp starts_with()/ends_with()")],
 ["return values"])

prop("C09", "word_wrap keeps every word and never exceeds the width",
 "With a non-zero width no produced line is longer than the width, the non-space characters of all lines in order are exactly those of the text, and every line feed in the text ends a line. "
 "When words are separated by single spaces and lines do not begin or end with a space, the result is the greedy wrap: a word that fits within the width is never cut, a line is broken only when the next word would not fit, and longer words are cut into full-width pieces; zero width returns the text unchanged as one line.",
 ["inputs"], "for all texts and all widths",
 NOUNIT + "; upstream wraps five sentences.",
 ["string.cpp"], [("line/span cursors", "string.cpp word_wrap()")], ["returned lines"])

prop("C10", "make_string produces the complete formatted text at any length",
 "make_string(format, ...) and its va_list form return exactly the characters printf would produce for the same format and arguments, whatever the length of the result, with no truncation, no extra character and embedded null characters preserved. "
 "Text that printf itself fails to produce is reported by a std::exception instead of a partial result, and no memory outside the internal buffers is touched.",
 ["inputs"], "for all formats/arguments and all result lengths, in particular around the internal buffer size and far beyond it",
 "The conan smoke test prints one short string and checks only the exit code.",
 ["string.cpp", "string.hpp"], [("first-guess stack buffer, then exact resize and retry with a re-copied va_list", "string.cpp make_string_va_list()")],
 ["returned string"])

prop("C11", "span always denotes exactly the caller's elements",
 "A span made from any supported source (pointer and size, vector, array, string, string view, initializer list, C string, compatible span) has that source's address and element count, iterates forward and backward over exactly those elements, and writes through it reach the source. "
 "subspan denotes the requested sub-range, at() throws std::out_of_range exactly for indices not below the size, the deep_ comparisons agree with lexicographic comparison of the elements, overlaps() is true exactly for addresses of the span's elements (never for an empty span), and byte/char re-views and make_vector keep address or contents.",
 ["inputs"], "for all element sequences of all sizes (empty included), all sub-ranges and all indices",
 NOUNIT + "; upstream samples a handful of short sequences and no empty one for overlaps.",
 ["span.hpp"], [("pointer + size pair", "span.hpp span"), ("std::equal/lexicographical_compare", "span.hpp deep_*"), ("pointer range test", "span.hpp overlaps()")],
 ["data(), size(), iterators, element references, comparison results, exceptions"])

prop("C12", "Tree traversal visits every node once in pre-order, both ways",
 "Iterating a traversal from begin to end visits every node of every tree exactly once, parents before children and siblings in order; reverse iteration gives exactly the reverse, increment and decrement undo each other, and the iterator comparisons agree with the visiting order. "
 "index(), depth(), at_level() and is_last_child() describe the node the iterator stands on, make_iterator/operator[] of that index lead back to the same node, is_valid() is true exactly for indices of existing nodes, and asking for a non-existing node or level throws std::out_of_range.",
 ["inputs", "histories"], "for all forests (any shape, empty, deep chains, wide nodes), all nodes in them and all index paths, const and non-const, forward and reverse",
 NOUNIT + "; upstream uses one three-level tree shape.",
 ["tree.hpp"], [("parallel list/iterator stacks", "tree.hpp iterator_internal"), ("index walk", "tree.hpp make_iterator_internal()/is_valid()")],
 ["sequence of visited nodes, index(), depth(), comparisons, exceptions"], [("iter_stack/list_stack", "path from the root list to the current node", "tree.hpp")])

prop("C13", "Tree edits through iterators keep the rest of the forest intact",
 "Inserting before, inserting after or erasing through a traversal iterator changes exactly the addressed place: all other nodes keep their values, children and order, and no node is lost, duplicated or leaked. "
 "The returned iterator stands on the inserted node, or on the next surviving node in traversal order after the erased one (the end if there is none), and stays usable for further edits; copies, moves and comparisons of trees are by value over the whole sub-tree, and values which can only be moved are supported throughout.",
 ["inputs", "histories"], "for all forests and all sequences of insert, insert_after, erase, copy and move at any node, inserting values from inside or outside the forest",
 NOUNIT + "; upstream performs six single edits on one shape.",
 ["tree.hpp"], [("container insert/erase with path fix-up", "tree.hpp traversal::insert/insert_after/erase"), ("defaulted copy/move, memberwise equality", "tree.hpp tree")],
 ["whole forest after each edit, returned iterator's path and onward iteration"])

prop("C14", "Reference smart pointers own exactly the object they refer to",
 "An object created through make_shared/make_unique is constructed once with the given arguments and destroyed exactly once, when its last shared_ref/shared_ptr (or its unique_ref) goes away, whatever sequence of copies, moves, up-casts, conversions to shared_ptr/weak_ptr/const and dynamic casts happened in between, also from several threads. "
 "Every reference obtained (get(), conversions, make_shared_from, make_weak_from, also under multiple and virtual inheritance) denotes that same object and shares its ownership; a dynamic cast to a wrong type throws std::bad_cast and changes nothing.",
 ["histories", "schedules"], "for all histories of creation, copy, move, conversion, cast and release, in any order and from concurrent threads",
 NOUNIT + "; lifetime errors need long histories plus a monitor of constructions and destructions.",
 ["shared_ref.hpp", "unique_ref.hpp", "shared.hpp", "destructable.hpp"], [("wrapped std::shared_ptr", "shared_ref.hpp p"), ("wrapped std::unique_ptr", "unique_ref.hpp p"), ("enable_shared_from_this base", "shared.hpp shared")],
 ["constructor/destructor events of tracked objects, addresses, use counts, exceptions"])

prop("C15", "signal delivers every emission to every connected callback",
 "Each emission calls every callback connected at that time exactly once, in the order of connection, and each of them receives the emitted argument values unchanged (the very same object when the signal's parameter is a reference). "
 "Disconnecting removes exactly the named connection (and releases its callback) and leaves all others working, a callback keeps its own state from emission to emission, as does a callback that throws, whose exception reaches the emitter; size() and empty() always reflect the connections.",
 ["histories", "inputs"], "for all sequences of connect, disconnect and emit, all argument types (values, references, move-sensitive types) and any number of callbacks",
 NOUNIT + "; upstream uses a signal without arguments and two callbacks.",
 ["signal.hpp"], [("std::list of callbacks, iterator as connection id", "signal.hpp callbacks"), ("emit loop", "signal.hpp emit()")],
 ["calls and arguments recorded by the callbacks, size()"])

prop("C16", "At most one singleton instance, tracked through its whole life",
 "At any time at most one object of a singleton class exists: constructing another one while the first is alive throws std::logic_error and leaves the first fully usable. "
 "is_created() is true exactly while an instance is alive, inst() returns that very instance, and after its destruction (or after a constructor that threw) a new one can be created; different singleton classes do not affect each other.",
 ["histories"], "for all histories of creation (also failing constructors), access and destruction, for intrusive and non-intrusive singletons of several classes, on stack and heap",
 "The existing test checks that one singleton object is shared between a program and a library; it never creates a second instance, a failing one or a new one after destruction.",
 ["singleton.hpp"], [("static instance pointer set in constructor, released in destructor", "singleton.hpp intrusive_singleton")],
 ["is_created(), &inst(), exceptions, object life events"], [("instance", "address of the live instance or null", "singleton.hpp")])

prop("C17", "spin_lock gives mutual exclusion and publishes protected writes",
 "At most one thread is between lock() and unlock() of the same spin_lock at any time, lock() returns only once it owns the lock, and a waiting thread acquires a released lock. "
 "Everything written before unlock() is visible, without data race, to the thread whose lock() follows.",
 ["schedules"], "for all interleavings of any number of threads locking and unlocking any number of locks",
 "No test uses spin_lock; races and ordering errors need concurrent schedules and a race detector.",
 ["spin_lock.hpp"], [("atomic_flag test_and_set(acquire) loop / clear(release)", "spin_lock.hpp")],
 ["owner history, protected plain memory under ThreadSanitizer"], [("flag", "set while owned", "spin_lock.hpp")])

prop("C18", "scope_exit runs its action exactly once, unless released",
 "The function given to scope_exit runs exactly once, at the end of the object's life, on normal exit as well as during stack unwinding, nested objects in reverse order of creation; an exception thrown by the function never escapes and never terminates the program. "
 "After release() it does not run on destruction; release() hands the function back, callable, exactly once (a further release() returns an empty function).",
 ["histories", "fault_sequences"], "for all nestings of scopes, exits by return or exception, releases at any point and throwing actions",
 NOUNIT + "; upstream runs one plain scope.",
 ["utility.hpp"], [("destructor with catch-all", "utility.hpp ~scope_exit()"), ("move out and null the function", "utility.hpp release()")],
 ["recorded sequence of action calls"])

prop("C19", "linq queries compute the right elements and respect the source",
 "select, where, order_by and group_by, alone or chained, return exactly what their definitions say: one result per element in order (with the right position passed to two-argument functions), exactly the elements satisfying the predicate in original order, a permutation sorted by the key, and a partition by key with original order inside each group. "
 "A source given as an lvalue is never modified or moved from, while elements of an rvalue source are moved, never copied by linq itself, and each reaches the result at most once.",
 ["inputs", "histories"], "for all source collections (vector, list, map, set; any size, duplicates) and all functions and chains",
 NOUNIT + "; upstream samples a handful of short collections; an element lost or moved twice needs tracked elements.",
 ["linq.hpp"], [("collection held by const reference or by value", "linq.hpp linq_collection_aggregator"), ("range loops and std algorithms", "linq.hpp select/where/order_by/group_by")],
 ["query results, source contents afterwards, copy/move events of tracked elements"])

prop("C20", "flags behaves as a set over its enumeration",
 "A flags object behaves as the mathematical set of the enumerators that are set: constructors, get/[]/set/clear/invert, the whole-set operations and |, &, ^, ~ with their assignment forms (also with a single enumerator as right operand, and enumerator | enumerator) give the corresponding set operation and touch no other element, and ==, !=, is_set, is_clear and size agree with it. "
 "Non-assigning operators leave their operands unchanged and streaming prints one digit per enumerator, highest first.",
 ["inputs", "histories"], "for all sequences of operations over enumerations of any size (1 to beyond one machine word) and any underlying type",
 NOUNIT + "; upstream uses one small enumeration.",
 ["flags.hpp"], [("std::bitset of enum_size bits", "flags.hpp")], ["get(), operators' results, stream output"])

prop("C21", "sort orders any range, at run time and compile time",
 "After utki::sort(first, last, comp) the range is a permutation of its former contents ordered by comp, for any strict weak ordering, any contents (already sorted, reversed, all equal, few distinct values) and length, and nothing outside the range is touched. "
 "The result is the same in C++17 and C++20 builds up to the order of equivalent elements, and usable in constant expressions.",
 ["inputs", "configurations"], "for all ranges (those whose iterators give proxies, like std::vector<bool>, included), all element types that are copyable, and all strict weak orderings",
 NOUNIT + "; upstream sorts arrays of five elements.",
 ["sort.hpp"], [("three-way quick sort in C++17, std::sort in C++20", "sort.hpp")], ["range contents before and after, neighbouring elements"])

prop("C22", "Views and enum iteration cover exactly the right elements",
 "Iterating zip visits the tuples of corresponding elements up to the shortest collection, reverse visits all elements in reverse, skip_front<N> visits all but the first N, and each yields references through which the originals can be changed. "
 "enum_iterable enumerates every enumerator once in order, and in reverse order through its reverse iterators, enum_array maps each enumerator to its own element (also zipped with its enumerators), and utki::next/prev advance by exactly n steps even when n exceeds the iterator's difference type.",
 ["inputs", "configurations"], "for all collections (plain arrays and forward lists too where the view applies to them) and sizes, also when a collection changes between making the view and iterating, numbers of zipped collections, const and non-const, and enumerations of any size and underlying type",
 NOUNIT + "; upstream zips three short collections; sizes beyond a narrow difference type are never tried.",
 ["views.hpp", "enum_array.hpp", "enum_iterable.hpp", "utility.hpp"], [("iterator tuple, end at the smallest size", "views.hpp zip_view"), ("chunked advance", "utility.hpp next()/prev()"), ("enum counting iterator", "enum_iterable.hpp")],
 ["visited elements, element addresses, element changes"])

prop("C23", "Exception descriptions show the whole nested chain, safely",
 "to_string lists an exception and every exception nested in it, outermost first, each on a new line starting with the given indentation and showing the readable type name and, for std::exception types, what(); current_exception_to_string does so for the exception being handled, giving that one by its type name; an exception stacked with utki::throw_with_nested reports the whole chain through what(), repeatably, and the returned text stays valid as long as the exception. "
 "This holds for any depth and mixture of std and utki nesting and non-std exception types (a non-std type is listed by name), never throws or terminates for an exception that has no nested one, and leaves the exception and any exception being handled untouched.",
 ["inputs", "histories"], "for all chains of exceptions of all types, depths, messages and indentations",
 NOUNIT + "; upstream checks four fixed chains.",
 ["exception.cpp", "exception.hpp", "debug.cpp"], [("recursive rethrow of nested exceptions", "exception.cpp to_string()/current_exception_to_string()"), ("nested exception kept next to the nesting one", "exception.hpp stacked_exception"), ("demangling", "debug.cpp demangle()")],
 ["returned strings, what()"])

prop("C24", "Assertions abort exactly when violated; logs are complete and flushed",
 "assert_always with a true condition does nothing and does not call the message function; with a false one it prints file, line and the message to stderr and aborts, always (also when the location is unknown, and whatever the global locale). "
 "utki::assert, ASSERT, log_debug, logcat_debug, LOG and run_debug do the same (or log, or run) in debug builds for every supported condition type (bool, function, raw and smart pointer, std::function) and have no effect in release builds; log/logcat write exactly the produced text to stdout and flush it before returning, an exception of the message function reaches the caller, and is_terminal_* tell whether the stream is a terminal.",
 ["inputs", "configurations"], "for all conditions, messages and source locations, in debug and release, C++17 and C++20 builds, with stdout/stderr being files, pipes or terminals",
 "The existing tests rely on utki::assert but never observe a failing one.",
 ["debug.hpp", "debug.cpp", "log.cpp", "log.hpp", "utility.cpp"], [("abort after printing", "debug.cpp assert_always()"), ("DEBUG-dependent overloads", "debug.hpp"), ("print then flush", "log.cpp log()")],
 ["child process exit status, its stdout/stderr bytes"])

prop("C25", "Version, math and container helpers obey their algebra",
 "version_duplet comparison is the total order by major then minor, consistent with its packed number, which keeps both parts, and prints as major.minor; flip_map/flip_pair swap keys and values, keeping one entry per distinct value, and contains tells exactly whether the value (or map key) is present. "
 "sign is -1 exactly for negative numbers and 1 otherwise, pow2..pow6 are the repeated products, degree/radian conversions are mutually inverse, index_of_v is the position of the type within the variant, overloaded calls the matching functor, and uint_size/int_size hold the requested number of bytes with the smallest standard type.",
 ["inputs"], "for all argument values and container contents",
 NOUNIT + "; upstream checks single samples.",
 ["version.hpp", "math.hpp", "utility.hpp", "variant.hpp", "type_traits.hpp"], [("field comparison", "version.hpp"), ("product chains", "math.hpp"), ("transform into new map / find", "utility.hpp"), ("helper variant index", "variant.hpp")],
 ["return values"])

prop("C26", "get_ticks_ms counts milliseconds of elapsed time",
 "The difference between two get_ticks_ms() results, taken modulo 2^32, equals the number of whole milliseconds the clock advanced between the calls, for gaps from below a millisecond to many days. "
 "The counter therefore never goes backwards while the clock does not, and it wraps through zero at 2^32 without a jump.",
 ["inputs", "schedules"], "for all clock values and gaps, including the wrap-around of the 32 bit counter, from any thread",
 "No test calls it, and real time cannot reach the wrap-around: that needs a controlled clock.",
 ["time.cpp", "time.hpp"], [("high resolution clock cast to milliseconds, truncated to 32 bit", "time.cpp get_ticks_ms()")],
 ["returned tick values under a controlled clock"])

prop("C27", "Results do not depend on language standard, debug mode or optimisation",
 "The same calls with the same arguments give the same results and the same exceptions whether the library and its user are built as C++17, C++20 or newer, debug or release, optimised or not, by gcc or clang, also when the library is built with other settings than the program which is linked to it. "
 "This covers strings, parsing, numbers, unicode, base64, serialization, spans, sorting by distinct keys, trees, linq, flags and exception texts.",
 ["configurations", "inputs"], "for all inputs, across all supported build configurations",
 "Each existing test is built in one configuration only, so a difference between the C++17 and C++20 branches or between debug and release cannot show.",
 ["string.hpp", "string.cpp", "sort.hpp", "span.hpp", "debug.hpp", "variant.hpp"], [("#if CFG_CPP >= 20 branches", "string.hpp, string.cpp, sort.hpp, span.hpp, debug.hpp"), ("#ifdef DEBUG branches", "debug.hpp, string.cpp")],
 ["digests of results of an identical workload, compared between builds"])

prop("C28", "The library keeps no hidden state shared between threads",
 "Threads which work on different objects, or which only read the same object, can use any part of the library at the same time: no data race happens, and every call gives the same result as it gives when nothing else is running. "
 "This covers the functions (formatting, splitting, wrapping, parsing, number conversion, unicode, base64, serialization, exception texts, type names, assertions and logging calls whose condition holds) as well as const operations on one shared tree, signal, flags, enum_array, span, parser, exception, reference and singleton.",
 ["schedules", "inputs"], "for all interleavings of any number of threads and all inputs",
 "The existing tests are single-threaded: a static buffer or cache inside a function is invisible to them.",
 ["string.cpp", "string.hpp", "debug.cpp", "exception.cpp", "unicode.cpp", "base64.cpp", "tree.hpp", "signal.hpp"], [("function-local buffers and streams", "string.cpp make_string_va_list(), split(), peek_char()"), ("no mutable or static members", "all headers except singleton.hpp and the description of stacked_exception")],
 ["results of concurrent calls compared with the results alone, ThreadSanitizer reports"])

prop("C29", "Failing allocations and throwing user code never leak or corrupt",
 "When a memory allocation fails, or the user's code (constructor, copy, comparison, selector, predicate, callback) throws, while a library operation runs, that very exception comes out of the operation (std::bad_alloc for an allocation), the program is not terminated, no memory or element is leaked, destroyed twice or used outside of its life, and what the operation only reads is unchanged. "
 "A failed connect() leaves the signal, a failed insertion leaves the forest, a failed assignment leaves the reference, and a failed singleton construction leaves the singleton as if nothing had been tried, and the same call succeeds afterwards. "
 "(Texts put together through a standard stream may be cut instead, as the stream takes the exception; a traversal iterator whose increment failed can only be assigned or destroyed.)",
 ["fault_sequences", "inputs"], "for every allocation and every user code operation within an operation being the failing one, for all inputs",
 "No existing test makes an allocation or a user function fail.",
 ["string.cpp", "string.hpp", "linq.hpp", "tree.hpp", "signal.hpp", "shared_ref.hpp", "unique_ref.hpp", "singleton.hpp", "utility.hpp", "span.hpp", "debug.cpp", "base64.cpp"], [("results built in local containers", "string.cpp, linq.hpp, utility.hpp, base64.cpp"), ("element made before the container is changed", "signal.hpp connect(), tree.hpp insert()/insert_after()"), ("scope_exit guards", "debug.cpp demangle(), string.cpp")],
 ["exceptions, live blocks and elements, state and results after each injected failure"])

prop("C30", "Debug builds stop misuse of an object before it does harm",
 "In a build with DEBUG defined, using an object outside of what it allows stops the program by a failed assertion (message with file and line on stderr, then abort) before any wrong memory is touched: an enumerator beyond the enumeration given to flags or enum_array, an index, offset or count beyond a span or front()/back() of an empty one, an invalid path given to a traversal, stepping a traversal past its ends, a null or moved-from shared_ref or unique_ref, inst() of an absent singleton, destroying a signal which still has connections, skipping more elements than there are, and throw_with_nested outside of a catch block. "
 "Correct use up to the very boundary is never stopped.",
 ["inputs", "histories", "configurations"], "for all objects, sizes and histories, and all out-of-range values up to the largest",
 "A test which aborts cannot pass, so no existing test observes a failing assertion.",
 ["flags.hpp", "enum_array.hpp", "span.hpp", "tree.hpp", "shared_ref.hpp", "unique_ref.hpp", "singleton.hpp", "signal.hpp", "views.hpp", "exception.hpp", "debug.hpp"], [("ASSERT in the accessors", "flags.hpp, enum_array.hpp, span.hpp, tree.hpp, views.hpp"), ("assertion of the pointer", "shared_ref.hpp, unique_ref.hpp"), ("assertion on life time", "signal.hpp ~signal(), singleton.hpp inst(), exception.hpp throw_with_nested()")],
 ["exit status and stderr of child processes which misuse an object"])

prop("C31", "Configuration macros tell the truth about the platform",
 "The macros of config.hpp name the operating system family and flavour, the compiler (and its version for GCC, its toolset for MSVC), the C++ standard, the processor with its word size and the byte order for which a translation unit is compiled, on every platform the header knows: Linux, Android, Windows, macOS, iOS, Solaris, FreeBSD, Emscripten, other Unixes; GCC, Clang, MSVC; C++98 to C++20 and newer (reported as 20); x86, x86-64, ARM, WebAssembly; little and big endian. "
 "What the header does not recognise is reported as unknown, never as something else, and the constants which name the values are distinct.",
 ["configurations"], "for all combinations of compiler, language standard and target described by the compiler's predefined macros",
 "A test is compiled for one platform, so all the other branches are never evaluated.",
 ["config.hpp"], [("#if ladders over predefined macros", "config.hpp")],
 ["values of the CFG_* macros in translation units compiled for each platform, against the running machine or the known answer"])

prop("C32", "The library works from any translation unit, before main() and after it",
 "Every public header can be included alone, repeatedly, and in any order with the others, in any number of translation units of one program (in its shared objects as well), which then link, agree on the layout of the classes, and exchange objects of the library, exceptions included, as if they were one. "
 "There is one instance of each singleton for all of them, and every function already works in initialisers of static objects before main() and still in destructors of static objects after it, with the same results.",
 ["programs", "histories", "inputs"], "for all programs made of any number of translation units and shared objects, all orders of includes, of initialisation and of operations run by different units",
 "Each existing test program consists of a single translation unit and does everything inside main().",
 ["singleton.hpp", "exception.hpp", "string.hpp", "string.cpp", "base64.cpp", "unicode.hpp", "tree.hpp", "signal.hpp", "version.hpp", "time.hpp"], [("inline functions and templates in headers", "all headers"), ("static instance pointer", "singleton.hpp singleton::instance"), ("constant-initialised tables", "base64.cpp decode_table")],
 ["linking, results of the same operations run by different units and at different times, addresses of singletons, class sizes"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
