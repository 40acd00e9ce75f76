#!/usr/bin/env python3
"""Writes ../properties.jsonl.  Editing helper only; the checks never run it."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

L = "src/libcork/"
I = "include/libcork/"

prop("C01", "A hash table behaves as an insertion-ordered map",
 "After any history of hash table operations, lookups, sizes, return codes and out-parameters are those of a map keyed by the table's comparator, whatever the hash function (including all keys colliding) and however often the table is resized. Iteration and map visit every entry exactly once in insertion order (overwriting a key keeps its place, a deleted and re-added key goes to the end), and a map callback that deletes or aborts affects exactly the entry it was given or stops exactly there.",
 ["histories", "inputs", "configurations"],
 "every sequence of put/get/get_or_create/delete/delete_entry/clear/ensure_size/map operations over a small key set, for colliding, constant and distinct hash functions and every initial size class",
 "test-hash-table.c runs a few fixed histories with one or two well-spread hash functions; order, resizing in the middle of a history, and collisions between deleted and live entries are only sampled.",
 [L+"ds/hash-table.c", I+"ds/hash-table.h", I+"ds/dllist.h"],
 [("bucket chains + insertion-order list", L+"ds/hash-table.c"), ("rehash on load", L+"ds/hash-table.c")],
 ["cork_hash_table_* API"])

prop("C02", "A hash table releases each owned key and value exactly once",
 "When free callbacks are installed, every key and value the table holds is passed to its free callback exactly once: when it is deleted, removed by a map callback, cleared, or when the table is freed. What a put overwrites is not freed but handed back to the caller through the out-parameters. The user data's own free callback runs exactly once, when the user data is replaced or the table is freed, with the right pointer; and the table returns all of its own memory.",
 ["histories", "configurations"],
 "every operation sequence over a small key set, with each combination of free callbacks installed or absent",
 "The tests install free callbacks in one scenario and do not count calls per object across histories.",
 [L+"ds/hash-table.c", I+"ds/hash-table.h"],
 [("free_key/free_value/free_user_data callbacks", L+"ds/hash-table.c")],
 ["free callbacks", "allocator"])

prop("C03", "Garbage collection frees exactly the unreachable objects, once",
 "For every history of allocations, reference changes and collections, an object that is still reachable from an outstanding external reference is never freed, and its children stay usable. An object that only ever had one reference is freed as soon as that reference is dropped, every unreachable object, cycles included, is freed when the garbage collector is finalised at the latest, and each object's free callback runs exactly once, never touching an already freed object.",
 ["histories", "inputs", "configurations"],
 "every object graph of up to 3-4 nodes (all edge sets), every order of releasing external references, interleaved with root pressure that makes the collector run at each possible point",
 "test-gc.c builds a handful of trees and one cycle; shared garbage cycles, several roots into one component and a full root buffer are never exercised.",
 [L+"core/gc.c", I+"core/gc.h", I+"helpers/gc.h"],
 [("synchronous cycle collection (mark gray / scan / collect white)", L+"core/gc.c"), ("possible-root buffer", L+"core/gc.c")],
 ["cork_gc_alloc/incref/decref, free callbacks"],
 [("ref_count/color/buffered", "per-object collector state", L+"core/gc.c")])

prop("C04", "Resizable arrays keep contents and element lifecycle straight",
 "After any sequence of array operations the size and elements equal those of a plain list, across every growth and copy. Element callbacks follow one lifecycle: each slot is initialised exactly once before first use, reused (never re-initialised) when it comes back into use, removed exactly once each time a live element leaves the array, and finalised exactly once when the array is done; string and pointer arrays free exactly the elements they own.",
 ["histories", "configurations"],
 "every sequence of append/append_get/at/remove-last/clear/ensure_size/copy/done on arrays with every combination of callbacks, through several reallocations",
 "test-array.c has three linear scenarios and never combines clear, reuse and growth.",
 [L+"ds/array.c", I+"ds/array.h"],
 [("init/done/reuse/remove callbacks", L+"ds/array.c"), ("geometric growth", L+"ds/array.c")],
 ["cork_raw_array/cork_array/cork_pointer_array/cork_string_array API"])

prop("C05", "A buffer always holds exactly the bytes written to it, NUL-terminated",
 "After any sequence of set, append, printf, copy, clear, truncate and ensure-size calls, a buffer's size and bytes equal the specified string (embedded NULs included, formatted output of any length complete, nothing changed when the C library cannot format it), a NUL byte follows the content after every mutation, and equality and byte access agree with the contents. Converting a buffer to a managed buffer, slice or stream consumer preserves its bytes and transfers or keeps ownership as documented.",
 ["histories", "inputs"],
 "every operation sequence over contents whose lengths straddle every growth threshold",
 "test-buffer.c checks a few appends; the exact-fit, one-short and empty cases of each growth path and of the formatted path are not enumerated.",
 [L+"ds/buffer.c", I+"ds/buffer.h"],
 [("ensure_size growth with room for NUL", L+"ds/buffer.c"), ("vsnprintf retry", L+"ds/buffer.c")],
 ["cork_buffer API"])

prop("C06", "Pretty-printers render every byte string faithfully",
 "The C-string form of any byte string is one line of printable characters that decodes back to exactly those bytes (letter escapes for quote, backslash and the named control characters, \\xXX with two hex digits for the rest); the hex dump lists every byte and printable character at its place; the multiline form indents every line but the first; and the binary form picks hex dump exactly when there is a byte that is neither printable ASCII nor whitespace, multiline when it spans lines, and the raw text otherwise. Output is appended after existing content and never ends with an extra newline.",
 ["inputs"],
 "every byte value in every position for short strings, every string over a small alphabet up to a length bound, lengths around each 16-byte row, several indents",
 "One or two literal strings are compared in test-buffer.c.",
 [L+"ds/buffer.c"],
 [("cork_buffer_append_c_string / hex_dump / multiline / binary", L+"ds/buffer.c")])

prop("C07", "Doubly-linked lists stay well-formed sequences",
 "After any sequence of add-to-head/tail, add-before/after, remove and list-to-list moves, forward and backward traversal visit the same elements in the specified order, sizes, emptiness and end tests agree, and moved-from lists are empty. Visiting or iterating tolerates removal of the current element, and a visitor's first non-zero result stops the visit and is returned.",
 ["histories"],
 "every operation sequence on two lists and a few elements",
 "test-dllist.c runs one linear scenario.",
 [L+"ds/dllist.c", I+"ds/dllist.h"],
 [("sentinel-based circular list", I+"ds/dllist.h")])

prop("C08", "A ring buffer is a bounded FIFO queue",
 "For every capacity and every sequence of add, peek and pop, elements come out in insertion order, an add to a full buffer is refused and changes nothing, pop and peek on an empty buffer give NULL and change nothing, and the empty and full tests are exact through any number of wrap-arounds.",
 ["histories", "configurations"],
 "every add/peek/pop sequence for each small capacity, NULL elements included",
 "test-ring-buffer.c fills one buffer of one size once.",
 [L+"ds/ring-buffer.c", I+"ds/ring-buffer.h"],
 [("read/write indices and size", L+"ds/ring-buffer.c")])

prop("C09", "A bitset is an array of independent bits",
 "For every bit count, all bits start at zero, setting or clearing one bit changes that bit and no other, clear turns every bit off, the reported bit count never changes, and no operation with an in-range index touches memory outside the set.",
 ["inputs", "histories", "configurations"],
 "every set/clear sequence up to a bound for every bit count up to several words",
 "test-bitset.c checks one pattern per size.",
 [L+"ds/bitset.c", I+"ds/bitset.h"],
 [("byte/mask indexing macros", I+"ds/bitset.h")])

prop("C10", "A memory pool hands out disjoint, reusable, initialised objects",
 "Objects allocated from a pool are pointer-aligned when their size is a multiple of a pointer's, never overlap a live object and never extend past their block, for every object and block size; contents of a live object survive every other pool operation. Each object's initialiser runs once before it is first handed out and its finaliser once when the pool is freed (not on free_object), freed objects are reused with their contents preserved, and freeing the pool returns all its memory and frees its user data (once, like user data that was replaced), or aborts if objects are still live.",
 ["histories", "configurations"],
 "every alloc/free sequence for several element sizes and block sizes, through several blocks",
 "test-mempool.c uses one type and one default block size.",
 [L+"core/mempool.c", I+"core/mempool.h"],
 [("block subdivision and free list", L+"core/mempool.c")])

prop("C11", "Slices and managed buffers denote exact, bounded byte ranges",
 "A slice operation succeeds exactly when the requested offset and length lie inside its source (no arithmetic wrap-around), and then the result holds exactly those bytes; otherwise it fails with an error set, leaves nothing to leak, and the result is an empty slice (a slice cut in place stays as it was). This holds for every chain of slice, copy, light-copy and in-place slice operations over every kind of source, and equality compares contents. Copies share the bytes of their source; only a copy-once slice's bytes are copied, by its first copy and then no more.",
 ["histories", "inputs"],
 "every chain of slice operations up to a depth, with every in-range and out-of-range offset/length including values near SIZE_MAX, over managed, copy-once and static sources",
 "test-slice.c and test-managed-buffer.c check a few fixed offsets and no huge lengths.",
 [L+"ds/slice.c", L+"ds/managed-buffer.c", I+"ds/slice.h", I+"ds/managed-buffer.h"],
 [("range checks", L+"ds/slice.c"), ("range checks", L+"ds/managed-buffer.c")])

prop("C12", "A managed buffer lives exactly as long as its references",
 "The free function of a managed buffer runs exactly once, when the last reference or slice into it goes away, and never earlier, for every history of ref, unref, slice, copy and finish; slices remain readable until they are finished, and all wrapper memory is returned.",
 ["histories"],
 "every history of reference and slice operations up to a bound, over several slices of one buffer",
 "Each test creates and releases one reference pattern.",
 [L+"ds/managed-buffer.c", L+"ds/slice.c"],
 [("reference counts", L+"ds/managed-buffer.c"), ("slice interfaces", L+"ds/slice.c")])

prop("C13", "Managed buffer reference counts are thread-safe",
 "When several threads concurrently take and drop references to one managed buffer, each dropping only references it holds, then under every interleaving no count is lost: the buffer's free function runs exactly once, after the last reference is dropped and never while any thread still holds one.",
 ["schedules"],
 "every interleaving (up to a preemption bound) of 2-3 threads doing 1-3 reference operations each",
 "The suite is single-threaded for managed buffers.",
 [L+"ds/managed-buffer.c", I+"threads/atomics.h"],
 [("atomic reference count", L+"ds/managed-buffer.c")])

prop("C14", "Memory goes back to the allocator it came from, with its exact size",
 "Every library operation obtains memory only from the installed custom allocator and returns each block to it exactly once with exactly the size it was allocated or last reallocated with; after every object a program created has been freed, no block remains. A custom allocator that only supplies some methods gets working defaults derived from those, and its user data is passed through unchanged and released at exit.",
 ["histories", "configurations"],
 "every short lifecycle history of every container/type in the library, under every subset of allocator methods supplied",
 "The suite runs under the debug allocator in one configuration and checks sizes only on the paths the tests reach.",
 [L+"core/allocator.c", I+"core/allocator.h", L+"ds/", L+"posix/", L+"core/"],
 [("sized free interface", I+"core/allocator.h"), ("default methods", L+"core/allocator.c")])

prop("C15", "Allocation failure is handled as each allocation family promises",
 "The recoverable functions (xmalloc, xcalloc, xrealloc, xreallocf, xnew, xstrdup, xstrndup) return NULL on failure, with the old block intact (or, for xreallocf, freed exactly once); the guaranteed ones never return NULL: they abort instead. calloc variants return zeroed memory or refuse on size overflow, reallocation preserves the common prefix, and string duplicates are exact and NUL-terminated, with or without the debugging allocator on top.",
 ["fault_sequences", "inputs"],
 "every position of a failing underlying allocation, for every allocation function, every allocator stack and boundary sizes",
 "No test makes an allocation fail.",
 [L+"core/allocator.c", I+"core/allocator.h"],
 [("default and debug allocators", L+"core/allocator.c")])

prop("C16", "IP address parsing accepts exactly well-formed addresses",
 "Parsing succeeds exactly for strings that are well-formed dotted-quad IPv4 or colon-hex IPv6 text (with optional embedded IPv4 tail) of the requested version, and stores the address they denote. Any other string yields a parse error, returns -1 and leaves the destination unchanged.",
 ["inputs"],
 "every string up to a length bound over an alphabet covering every character class, and every token sequence of address components up to a token bound",
 "test-core.c lists a few dozen good and bad literals.",
 [L+"core/ip-address.c", I+"core/net-addresses.h"],
 [("hand-written state-machine parsers", L+"core/ip-address.c")])

prop("C17", "IP address formatting is canonical and round-trips",
 "The text of any IPv4 or IPv6 address fits the documented maximum length, is in canonical form (lower-case hex, no leading zeros, the first longest run of two or more zero groups compressed, IPv4-style tails where the address is an IPv4-mapped or IPv4-compatible one), and parses back to the same address; equality holds exactly for same version and same bits, and copies are exact.",
 ["inputs"],
 "every IPv6 address whose groups are drawn from a set of boundary values, every IPv4 address over boundary octets",
 "A few literals in test-core.c.",
 [L+"core/ip-address.c", I+"core/net-addresses.h"],
 [("to_raw_string", L+"core/ip-address.c")])

prop("C18", "CIDR alignment check is exact",
 "An address is reported as a valid network for a prefix length exactly when the prefix is within the address width and every bit after the prefix is zero, for IPv4, IPv6 and generic addresses.",
 ["inputs"],
 "every prefix length from 0 to beyond the width, every address with at most two bits set plus boundary patterns",
 "test-core.c checks about ten (address, prefix) pairs, none with an IPv6 prefix that is not a multiple of 8.",
 [L+"core/ip-address.c"],
 [("is_valid_network", L+"core/ip-address.c")])

prop("C19", "128-bit integers compute modulo 2^128 and print exactly",
 "Construction, part access, addition, subtraction, shifts and all comparisons agree with mathematical integers modulo 2^128, and the decimal, hex and padded-hex strings are exact, minimal (or full-width for padded) and fit their documented lengths, identically in the compiler-native and the portable implementation.",
 ["inputs", "configurations"],
 "every pair of values whose 32-bit parts are drawn from boundary values, in both build configurations, plus every power of two and of ten and their neighbours",
 "The generated test cases are random samples of one operation each.",
 [I+"core/u128.h", L+"core/u128.c"],
 [("carry/borrow logic", I+"core/u128.h"), ("digit extraction", L+"core/u128.c")])

prop("C20", "Timestamps convert and format exactly",
 "A timestamp built from seconds and a fraction in any unit gives back the same seconds and the same fraction in that unit for every in-range fraction, fractions in all units are below one second, and order is preserved. UTC and local formatting render each specifier as documented for every second value, fractional fields have exactly the requested digits, literal text is copied, and an invalid format gives an error.",
 ["inputs"],
 "every millisecond fraction and microsecond fraction, boundary and strided nanosecond fractions, boundary gammaseconds; every short format string over the specifier alphabet; boundary instants",
 "test-core.c checks a handful of values with one format each.",
 [L+"core/timestamp.c", I+"core/timestamp.h"],
 [("unit conversion with rounding", L+"core/timestamp.c"), ("format scanner", L+"core/timestamp.c")])

prop("C21", "Hash functions are pure functions of seed and bytes",
 "The stable 32-bit hash equals MurmurHash3_x86_32, and the 128-bit hash equals MurmurHash3_x64_128 (MurmurHash3_x86_128 on 32-bit hosts), for every seed and byte string, regardless of the buffer's alignment or of the bytes around it; the per-process hash is deterministic and equal for equal content; variable hashes equal the hash of the variable's bytes; and the command-line tool prints the stable hash.",
 ["inputs"],
 "every length over several block sizes, every tail length, every alignment, boundary byte values and seeds",
 "test-core.c compares a few known vectors at one alignment.",
 [I+"core/hash.h", L+"core/hash.c", "src/cork-hash/cork-hash.c"],
 [("inlined MurmurHash3", I+"core/hash.h")])

prop("C22", "Byte-order conversions are exact involutions",
 "Every swap macro reverses the bytes of its argument, host/big and host/little conversions are inverse and produce the documented byte order in memory, and each in-place variant equals its expression variant and changes nothing else.",
 ["inputs"],
 "every 16-bit value; 32-, 64- and 128-bit values over boundary bytes in every position",
 "One constant per width in test-core.c.",
 [I+"core/byte-order.h"],
 [("swap macros", I+"core/byte-order.h")])

prop("C23", "The error condition is exact per thread and survives concurrency",
 "Within a thread, after any sequence of set, prefix, redirect/clear and query calls, the error flag, code and message are exactly those last set (with all prefixes in front, formatted text of any length complete). What one thread does never changes what another observes, for every interleaving, and the thread's storage is set up once and released at process exit.",
 ["histories", "schedules"],
 "every sequence of error API calls up to a bound, and every interleaving up to a preemption bound of 2-3 threads setting and reading errors",
 "test-core.c sets a few errors in one thread.",
 [L+"core/error.c", I+"core/error.h"],
 [("thread-local error state and global registration list", L+"core/error.c")])

prop("C24", "cork_once runs its body exactly once and publishes it to all callers",
 "However many threads reach cork_once or cork_once_recursive on the same barrier and however they interleave, exactly one executes the call and no caller continues before the call has completed; the recursive variant lets the executing thread re-enter without deadlock, and no thread is left waiting forever.",
 ["schedules"],
 "every interleaving (up to a preemption bound) of 2-3 threads passing a barrier one or more times, including re-entry",
 "test-threads.c runs the barrier from a couple of free-running threads.",
 [I+"threads/basics.h", I+"threads/atomics.h"],
 [("compare-and-swap barrier states", I+"threads/basics.h")])

prop("C25", "Threads run once, with unique IDs, and report results through join",
 "Every started thread runs its function exactly once with its user data, sees itself as the current thread with a non-zero ID no other thread has (threads not created by the library included), and frees its user data exactly once when it finishes, or when it is freed unstarted. Joining waits for the end, returns success or the function's failure with the very error code and message it set, and releases the thread; this holds under every interleaving.",
 ["schedules", "histories"],
 "every interleaving up to a preemption bound of creator, joiner and 1-3 threads, successful and failing, named and unnamed",
 "test-threads.c starts and joins a few threads under the natural schedule.",
 [L+"pthreads/thread.c", I+"threads/basics.h"],
 [("atomic thread id counter", L+"pthreads/thread.c"), ("error hand-over at join", L+"pthreads/thread.c")])

prop("C26", "Atomic operations are atomic and return the documented value",
 "Atomic add, pre-add, sub, pre-sub and compare-and-swap return the value documented (after or before the operation) for every operand, including wrap-around, and under every interleaving of several threads the results are those of some sequential order.",
 ["schedules", "inputs"],
 "every interleaving of 2-3 threads performing 1-3 atomic operations on one variable; boundary operands sequentially",
 "test-threads.c calls each macro once in one thread.",
 [I+"threads/atomics.h", I+"config/gcc.h"],
 [("compiler builtins", I+"threads/atomics.h")])

prop("C27", "Cleanup functions all run at exit, in priority order",
 "At normal process exit every registered cleanup function runs exactly once, in ascending priority, whatever the order and number of registrations; functions of equal priority all run; none runs on registration or before exit.",
 ["histories"],
 "every sequence of registrations up to a bound over a small priority set, via the API and its named variant, in a process that then exits",
 "No test observes the exit phase.",
 [L+"posix/process.c", I+"os/process.h"],
 [("sorted registration list + atexit", L+"posix/process.c")])

prop("C28", "Streams deliver every byte exactly once, in order, whatever the I/O does",
 "Consuming a file descriptor, FILE or path passes exactly its bytes, in order, with only the first chunk flagged first and one end-of-stream at the end, for every pattern of short and interrupted reads; writing consumers put exactly the bytes they receive into the file for every pattern of short and interrupted writes. (An interrupted call on a stdio FILE may be reported as an error instead.) A read, write, open or close error is reported with the system error code, a consumer's own error stops the stream and is passed on, and files the library opened are closed exactly once in every case while caller-owned ones are left open.",
 ["fault_sequences", "inputs"],
 "every sequence of I/O outcomes (full, short, interrupted, failing) up to a deviation bound for each producer and consumer",
 "test-files/test-core never see a short or interrupted call.",
 [L+"ds/file-stream.c", L+"ds/stream.c", I+"ds/stream.h", I+"helpers/posix.h"],
 [("read/write loops with EINTR handling", L+"ds/file-stream.c")])

prop("C29", "Subprocess output arrives complete and without deadlock",
 "For every interleaving of the children's writes, closes and exits with the parent, running subprocesses to completion delivers everything each child wrote to stdout and stderr to its consumer exactly once and in order, followed by one end-of-stream, and never blocks forever while a child can make progress or is done. Data written to a child's stdin arrives complete, in order, and ends when the stdin consumer is closed, whatever other subprocesses of the group or executed programs are running; the exit code reported is the one a child exits with, and is not zero for a child killed by a signal.",
 ["schedules", "fault_sequences"],
 "every interleaving, up to a deviation bound, of 1-2 scripted children and the parent's system calls, with output larger than a pipe, short and interrupted reads",
 "test-subprocess.c runs small commands under the natural timing only.",
 [L+"posix/subprocess.c", I+"os/subprocess.h"],
 [("pipe draining loop", L+"posix/subprocess.c")])

prop("C30", "Draining never blocks; abort, wait and group state are exact",
 "Draining delivers what is available and returns without waiting, whatever the children are doing; is-finished is true exactly when every process in the subprocess or group has exited and its output is drained. Abort terminates the running children, wait returns only when all are finished, an error raised by an output consumer is passed back to the caller, every exited child is reaped exactly once and no file descriptor is leaked.",
 ["schedules", "fault_sequences"],
 "every interleaving, up to a deviation bound, of scripted children with sequences of drain/is_finished/wait/abort calls",
 "The tests only start groups and wait.",
 [L+"posix/subprocess.c", I+"os/subprocess.h"],
 [("non-blocking pipes", L+"posix/subprocess.c"), ("waitpid(WNOHANG)", L+"posix/subprocess.c")])

prop("C31", "Environments and execs are applied exactly as built",
 "An environment object behaves as a map from names to values under any history of add, formatted add, get, remove and clone (a clone is independent of its source), and replacing the current environment makes the process environment exactly that map; the current environment is addressed when no object is given. Running an exec passes exactly the program, parameters (in order), environment and working directory that were set, changing nothing that was not set.",
 ["histories", "configurations"],
 "every sequence of environment operations over a small name/value set; every combination of exec settings up to a parameter bound",
 "test-subprocess/test-files use one environment with one variable.",
 [L+"posix/env.c", L+"posix/exec.c", I+"os/subprocess.h"],
 [("variable hash table", L+"posix/env.c"), ("execv/execvp selection", L+"posix/exec.c")])

prop("C32", "Path manipulation follows the documented rules for every path",
 "For every pair of path strings, join, append, dirname, basename and absolute-path operations give the documented result: joining with an absolute path yields that path, otherwise the parts are separated by exactly the separator needed; dirname and basename split at the last separator; the in-place and copying variants agree; absolute paths are relative ones joined to the current directory; and the inputs of copying variants are unchanged.",
 ["inputs"],
 "every pair of strings up to a length bound over the alphabet {'/', '.', letters}, several current directories",
 "test-files.c lists a few dozen literals.",
 [L+"posix/files.c", I+"os/files.h"],
 [("path buffer manipulation", L+"posix/files.c")])

prop("C33", "File creation, existence and removal do exactly what was asked",
 "On every directory tree and for every combination of flags, existence and type queries report the filesystem's current state; creating a directory creates exactly the requested ones (parents included when recursive), tolerates existing directories exactly when asked to, and removal removes exactly the named file, or with the recursive flag exactly that directory's tree, never anything outside it (symbolic links are removed, not followed), tolerating absence exactly when asked to. On failure an error is set and -1 returned, for every system-call failure.",
 ["inputs", "histories", "fault_sequences"],
 "every small directory tree (files, directories, symbolic links) x operation x flags x path spelling, sequences of operations on one file object, and each single system-call failure",
 "test-files.c covers a few trees without symlinks, failures or reuse of a file object.",
 [L+"posix/files.c", I+"os/files.h"],
 [("stat cache", L+"posix/files.c"), ("recursive mkdir/remove", L+"posix/files.c")])

prop("C34", "Directory iteration and walking visit exactly the tree",
 "Iterating a directory or walking a tree visits every entry exactly once with correct full, relative and base names, entering and leaving each directory around its contents, skipping exactly the directories the walker asks to skip. A callback's other non-zero result stops the traversal at once and is returned, a system error is reported, and no directory handle or memory is leaked in any case.",
 ["inputs", "fault_sequences"],
 "every small directory tree, every position at which a callback skips or aborts, each single system-call failure",
 "test-files.c walks one fixed tree to completion.",
 [L+"posix/files.c", L+"posix/directory-walker.c", I+"os/files.h"],
 [("readdir loops", L+"posix/directory-walker.c")])

prop("C35", "Path lists search in order and find exactly what exists",
 "A path list built from any colon-separated string or by adding paths has exactly those elements in order and prints back to the same string; searching it returns the first existing match (or all matches, in order), relative to each element. The home, configuration, data, cache and runtime paths are those given by HOME and the XDG variables, an empty one counting as unset, with the documented defaults. A search that finds nothing, or a path that isn't defined, gives NULL and an error, or an empty list.",
 ["inputs", "configurations"],
 "every colon-separated string over a small set of directories, every placement of files over those directories",
 "test-files.c checks three or four lists.",
 [L+"posix/files.c", I+"os/files.h"],
 [("path list scan", L+"posix/files.c")])

prop("C36", "Command-line dispatch runs exactly the selected command",
 "For every argument vector, the command that runs is the leaf named by the arguments after each level's option parser has consumed its options, and it receives exactly the remaining arguments, once. help, --help and -h show the help of exactly the command they are addressed to and succeed, an unknown or missing subcommand shows help and fails, and nothing is executed in those cases.",
 ["inputs"],
 "every argument vector up to a length bound over the words of a two-level command tree, options and help forms",
 "The cram tests run a few cork-test command lines.",
 [L+"cli/commands.c", I+"cli/commands.h"],
 [("subcommand lookup and help", L+"cli/commands.c")])

prop("C37", "Custom allocators are used exactly as they were built",
 "An allocation or deallocation through an allocator reaches exactly the method installed for it, once, with the caller's arguments and the allocator's user data, and returns what that method returned; methods that were not supplied are made from the allocator's own others, never from somewhere else, and a missing required one aborts. The debugging allocator aborts on every free or reallocation with a wrong size and on no right one. Replaced user data is freed at once; at exit, after every cleanup function, the allocators are freed with their user data exactly once, in the reverse of the order they were created, each by its parent.",
 ["histories", "fault_sequences"],
 "every subset of methods x function x size, every wrong size, and every history of allocator creations, user data changes and registrations up to a bound followed by process exit",
 "No test creates an allocator apart from the debugging one, and no test observes the exit phase.",
 [L+"core/allocator.c", I+"core/allocator.h"],
 [("method table and list of instances", L+"core/allocator.c")])
prop("C38", "Each thread has its own thread-local instances and garbage collector",
 "However threads interleave, a thread-local variable gives each thread its own instance, zero-filled at its first use (or made by the allocation function, where one is used), at the same address with the contents that thread left there, and gone without a trace when the thread ends. Each thread's garbage collector visits and frees only objects of that thread, in that thread, and finalising it frees that thread's garbage and nothing else.",
 ["schedules", "histories"],
 "every interleaving up to a preemption bound of 2-4 threads doing up to 3 operations each on thread-local variables and their collectors, simultaneous or one after the other, with compiler thread-locals and with pthread keys",
 "No test uses cork_tls directly or a collector in more than one thread.",
 [I+"threads/basics.h", L+"core/gc.c", I+"core/gc.h"],
 [("cork_tls, compiler and pthread-key forms", I+"threads/basics.h"), ("per-thread collector context", L+"core/gc.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = len([s for s in p["statement"].replace("e.g.", "").split(". ") if s.strip()])
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
print(len(P))
