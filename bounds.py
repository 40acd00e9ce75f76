"""What each check enumerates completely: (quick, thorough)."""
B = {
"C01": ("every sequence of up to 3 operations (5 with visited states pruned) of put/get/get_or_create/delete/entry/map/iterate/resize/clear over 3 keys in an empty table, 2 (3 pruned) over 4 keys in tables of 47 and 48 entries (the next put resizes), for 5 hash functions including constant and colliding ones, and for string and pointer tables and preset sizes 9, 16, 64; 2 on tables of 96/97 entries; tables of up to 2500 entries built, changed and taken apart in 10 patterns; 70000 and 140000 entries put, looked up, deleted and iterated over",
        "the same with 4 (7 pruned), 3 (5 pruned) and 3 operations"),
"C02": ("every subset of the three free callbacks x every sequence of up to 3 operations over 2 keys (5 pruned over 3 keys; 2 in a table of 48 entries about to be resized), string and pointer tables too",
        "4 operations (7 pruned, 3 when resizing)"),
"C03": ("every directed graph of up to 4 nodes (self loops and duplicate edges by extra operations) x every order of dropping the external references; with 3/3/1/0 extra operations (incref, decref, new edge, cut edge, collect) for 1/2/3/4 nodes, and with 1017-1024 other possible roots already pending so that the automatic collection happens at every point; 3 objects releasing others in their free callbacks, every graph x ownership x state; graphs of 30-600 nodes in 9 shapes; 6000 small rings",
        "3/4/2/1 extra operations; pending-roots family with up to 2/1/0 extra for 2/3/4 nodes"),
"C04": ("every sequence of 4 operations (3 from arrays of 1, 3, 4, 8, 15 elements: all growth boundaries) of append/ensure_size/remove/remove_range/clear/copy ..., for all 8 callback masks with init, raw elements of 1, 3, 4, 8, 24, 100 bytes, pointer and string arrays; arrays of 127, 1000 and 70000",
        "5 operations (4 from prefilled arrays)"),
"C05": ("every sequence of 4 operations out of set/append (bytes, strings, literals), printf variants (formatting that fails included), copy, indent, truncate, ensure_size, clear x 9 lengths around the growth boundaries, then each conversion (managed, slice, stream, raw); 2 operations with lengths up to 70001",
        "every sequence of 5 operations"),
"C06": ("all byte strings of up to 2 bytes; every string of up to 5 classes of characters x 3 indents; hex dumps and multiline texts of every length 0-50 x 3 prefixes x 5 indents; lengths around 128, 256, 1024 and 4096, and around 65536", "all byte strings of up to 3 bytes; up to 6 classes; every length 0-81"),
"C07": ("the whole reachable state space of 1-4 elements in 2 lists (depth 9), all operations and all visitor/map callback behaviours (remove, move, stop); lists of up to 70000 elements", "1-5 elements, depth 12"),
"C08": ("every sequence of 14 add/pop for capacities 0-9 (10 around the wrap-around positions for 15, 16, 17, 31, 32, 33), heap and embedded buffers; long patterns for 255 to 70000", "18 and 13 operations"),
"C09": ("bit counts 0-16: every sequence of 3 operations, 17-72: of 2; the complete state space (depth n+2) for 0-10 bits; single changes of empty and full sets of 127..1025 bits, and of up to 524289", "3 operations up to 24 bits, complete state space for 0-13 bits"),
"C10": ("every new/free history of 8 operations with up to 6 live objects for 8 object sizes x 7 block sizes (room for 1-3 objects with slack, 4096, 1 and 16 bytes) x callbacks; objects larger than the default block; 500 objects in 6 kinds x 5 patterns", "10 operations"),
"C11": ("every (offset, length) around the bounds and around SIZE_MAX, every chain of 3 copy/light-copy/slice/in-place-slice/finish over 6 kinds of source of 0, 1, 3, 4 bytes; slices of up to 2^24 bytes and 70000 references", "every chain of 5"),
"C12": ("every history of 7 ref/unref/slice/copy/light-copy/finish over up to 4 slices of 3 kinds of managed buffers, empty and not; 70000 references", "every history of 9"),
"C13": ("2 threads x 1 operation: 9 preemptions (complete); 2x2 and 3x1: 2; 2x3: 1; over ref/unref/slice/copy/light-copy/unslice/check", "unbounded for 2x1; 4; 2; also 3x2 with 2 and 2x4 with 1"),
"C14": ("33 allocator configurations (every subset of supplied methods x user data, with and without the debug allocator) x 18 kinds of object (every type of the library, and plain blocks through the allocation functions), each under every sequence of 3 operations, then finished; and process exit", "every sequence of 4 operations"),
"C15": ("13 functions x 9 allocator stacks x 9 sizes / 15 (count, size) pairs incl. overflow / 5 strings x every n x failure of the underlying allocation from call 1, 2 on or never", "the same (complete)"),
"C16": ("all strings over 7 small alphabets (\"15.0\" up to 10, \":1.\" 12, \":f1\" 12, \":a0.9g \" 7, \"2569.\" 8, \"0:\" 17, \".0\" 17 characters); all quadruples of 27 octet spellings x 4 separators; all structured IPv6 texts of 0-10 groups with :: at up to two places and 14 tails; all one- and two-character edits of well-formed texts (40 million strings x 3 functions)",
        "two to three characters longer"),
"C17": ("every pattern of 5 group values over 8 groups; all byte pairs at all positions; embedded IPv4 forms; equality over all single-bit differences", "6 group values"),
"C18": ("all addresses with up to 3 set bits, all runs and byte fills, x every prefix 0-255", "the same with 4 set bits"),
"C19": ("all pairs of values built from 6 interesting 32-bit parts (1296 values squared), 10^i neighbourhoods, every shift 0-127, native and portable implementation", "8 interesting parts (4096 squared)"),
"C20": ("every day of the 2^32 seconds of 1970-2106 at ten times of day (64 days every 7th second) in 8 zones; nanoseconds in steps of 11, gamma-seconds in steps of 61, and the edges of 256 ranges of them; every milli/microsecond; all format strings of up to 4 tokens", "every 15 minutes +-1 second of every day; every nanosecond and gamma-second; 5 tokens"),
"C21": ("all values of every byte of strings of 0-79 bytes, all strings of up to 6 bytes over 4 values, several seeds, every alignment and surroundings flush against the end of an allocation; lengths around 2^k, k up to 24; the tool with 11 argument shapes", "up to 8 bytes"),
"C22": ("every 16-bit value; all byte pairs at all positions of 32-, 64- and 128-bit values over 3-6 backgrounds; every binary operator as argument; native and portable builds", "the same"),
"C23": ("every sequence of 4 of 34 API calls (8 message lengths up to 1024), all check macros, messages of up to 65536 characters and 300 prefixes; interleavings: 2 threads x 1 call with 2 preemptions, 3x1 with 1, 2x2 with 1 (thread-local and pthread-key storage)", "sequences of 5; 4/2/2 preemptions, 2x3 and 3x2"),
"C24": ("2 threads x 1 pass with 5 preemptions, 3x1 with 2, 2x2 with 2, 4x1 with 1 (pthread-key storage: the first two)", "unbounded for 2x1, 3, 3, 2, and 3x2 with 2"),
"C25": ("8 shapes (1-3 library threads, nested, foreign threads, refused pthread_create, never started) x 8 outcomes of the function, 3/2/2/2/1/2/1 preemptions; thread-local and pthread-key storage", "6/2/2/3/2/2/1 preemptions"),
"C26": ("every operation on 15 boundary operands squared; 2 threads x 2 operations and 3x1 on 4 types: all interleavings", "also 2x3 and 3x2: all interleavings"),
"C27": ("processes registering up to 3 functions over 6 priorities (all combinations), up to 6 with ties, up to 3 interleaved with errors or registered by other cleanup functions; up to 40 in 7 patterns", "4, 8, 4"),
"C28": ("5 producers x 6 consumers x 7 lengths x 3 bufferings; every placement of up to 4 (3 beyond 5 bytes) deviations (EINTR, error, 3 short sizes) in the system calls; consumer failing at each call; up to 200001 bytes", "6 (5) deviations"),
"C29": ("57 scenarios (1-2 children, groups, stdin, signals, grandchildren, few descriptors); every schedule with up to 2 (two children: 1) deviations from the default pacing, incl. EINTR and short calls", "3 (2) deviations"),
"C30": ("10 sets of children x every sequence of up to 5 (two children: 3) start/drain/abort/wait/send/child-step operations with 1 scheduling deviation; of 3 (2) with one failing system call or failing consumer", "8 (5); 5 (4); and failing calls combined with schedules, 2 deviations"),
"C31": ("every sequence of 4 operations over 3 environments (the current one, two others), 3 names, 4 values, with pruning of visited states; environments of up to 700 variables and execs of up to 100 parameters; execs with every set of up to 3 settings in any order, failing execs and chdir", "5 operations, 4 settings"),
"C32": ("all paths of up to 5 symbols and all pairs of up to 4; every history of 4 operations, from 4 current directories", "7, 5; histories of 5"),
"C33": ("4 large trees with one failure; every path x tree x operation x flags with up to 2 failing or interrupted system calls; every history of 4 operations incl. changes from outside", "3 failures; 5 operations"),
"C34": ("28 trees x 17 spellings x (walk, iterate), 4 large trees (90 entries, 40 levels, names of 230 characters) with every placement of up to 3 callback results and failing calls", "4"),
"C35": ("all strings of up to 7 symbols as lists, all sequences of 5 add/appends, lists of up to 100 elements of up to 5000 characters, all lists of 3 places x what exists there; every combination of HOME and XDG variables out of 4-6 values", "9 symbols, 7 operations, longer lists"),
"C36": ("every argument vector of up to 4 words out of 13", "5 words"),
"C37": ("17 functions, both forms, on an allocator with every subset of the 7 methods installed, with memory and without; blocks of 5 sizes given back with 5 sizes on 4 stacks of debugging allocators; every history of up to 4 allocator creations, user data changes, uses, cleanup registrations and cork_set_allocator, in a process that then exits", "histories of 5"),
"C38": ("2 threads x 1 operation with 4 preemptions, 2x2 and 3x1 with 1, 4 threads one after the other; 8 operations on 4 thread-local variables and the collector; thread-local and pthread-key storage", "6/3/2 preemptions, 2x3 and 3x2"),
}
