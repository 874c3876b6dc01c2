"""What each check runs."""
LIB = "all of /repo/src and /repo/include of the epochs under test, compiled unmodified"
THR_STUB = ["pthread (mutex, create, join, detach, attributes): simulator-controlled implementation with real OS threads "
            "run one at a time", "allocator: simulated heap with placement, exhaustion and access checks"]
FS_STUB = ["operating system files (open, stdio streams, read, seek, stat, mmap, rename, directories): in-memory disk behind the "
           "C library calls, stdio buffering is glibc's own (fopencookie)",
           "other processes: an actor that runs at chosen system calls",
           "allocator: simulated heap with placement, exhaustion and access checks"]
HEAP_STUB = ["allocator: simulated heap with drawn placement, reuse of freed blocks, dirty contents, exhaustion and access checks"]
FAULT_TEXT = {}
FILE_CONTENT = ["wrong-content", "content-from-nowhere", "content-refused", "invalid-text", "wrong-lines", "process-ended", "wrong-length",
                "does-not-match", "no-such-path", "wrong-path", "yielded-after-end", "yielded-twice", "false-failure", "false-success",
                "not-once", "ran-after-failure", "wrong-context", "unexpected-abort", "exception", "unexpected-exception", "no-progress",
                "data-race"]
NOT_LIFETIME = ["not-refused", "not-sorted", "not-stable", "wrong-answer", "wrong-rotation", "wrong-selection", "wrong-side",
                "out-of-order", "unexpected-exception", "unexpected-abort", "no-progress"]
CHECKS = {
    "C01": dict(scn=["c01_mutex.cpp"], runs=130000, real=[LIB], stub=THR_STUB,
                rule="Each run draws 2-6 threads, 1-3 mutexes, a mix of lock/try-lock/guard operations and a scheduler "
                     "configuration (preemption at memory accesses, at synchronisation, at shared data); now and then a crowd of up to 270 threads."),
    "C02": dict(scn=["c02_guard.cpp"], runs=140000, real=[LIB], stub=THR_STUB,
                rule="Each run draws 0-4 extra threads, 1-2 mutexes, a mix of lock/try-lock/guarded sections left in five "
                     "ways, which pthread calls may fail and how often, and a scheduler configuration."),
    "C03": dict(scn=["c03_thread.cpp"], runs=160000, real=[LIB], stub=THR_STUB,
                rule="Each run draws up to 8 thread objects (some created by threads), gates that keep threads running, how "
                     "and when each object is joined, detached or destroyed, and failures of creation; now and then up to 274 threads at once."),
    "F01": dict(scn=["f01_load.cpp"], runs=280000, real=[LIB], stub=FS_STUB,
                rule="Each run draws file contents (text, corrupted text, binary, sizes around buffer boundaries, up to 8 MiB), what the "
                     "path denotes, which system calls fail and how often, and what another process does to the file at "
                     "which system call; 1-5 loads."),
    "F02": dict(scn=["f02_lines.cpp"], runs=260000, real=[LIB], stub=FS_STUB,
                rule="Each run draws file contents (line lengths around buffer sizes, missing final newline, NUL bytes, empty "
                     "file), where reads are short or fail, whether the loop or single calls are used, and early exits."),
    "F03": dict(scn=["f03_mmap.cpp"], runs=340000, real=[LIB], stub=FS_STUB,
                rule="Each run draws targets to map (sizes around page boundaries and up to 16 MiB, empty files, directories, pipes, links), "
                     "which system calls fail, and a history of mapping, moving, assigning and destroying mapping objects."),
    "F04": dict(scn=["f04_rename.cpp"], runs=230000, real=[LIB], stub=FS_STUB,
                rule="Each run draws a small tree (files, directories, links, a pipe), up to 10 renames and questions about paths, "
                     "failing system calls, one action of another process at a drawn system call of each rename, and a "
                     "machine stop at a drawn system call."),
    "F05": dict(scn=["f05_glob.cpp"], runs=190000, real=[LIB], stub=FS_STUB,
                rule="Each run draws a tree (names that probe the matcher, dot names, long names, up to 5 levels), the order in "
                     "which directories list it, patterns of up to 4 segments (now and then hundreds) with at most one **, abandonment, which system "
                     "calls fail, and what another process removes, creates or renames at which system call."),
    "M01": dict(scn=["m01_hash.cpp"], runs=100000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws key type, colliding hashes, where the allocator puts things (hence the salt), up to 60 operations on "
                     "two maps or two sets - insert, overwrite, remove, keys and values of the table itself, clear, moves, churn - and "
                     "which allocations and copies fail."),
    "M02": dict(scn=["m02_tree.cpp"], runs=80000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws tree, set or map, node size 3-15, element type, up to 40 operations on up to two of them - "
                     "insert, overwrite, remove, runs of keys filled and drained in drawn orders, own elements as arguments, moves - "
                     "where the allocator puts things and which allocations and copies fail."),
    "M03": dict(scn=["m03_seq.cpp"], runs=180000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws a container kind and element type (lifetime-tracking, over-aligned, integers), up to 60 operations "
                     "on two or three containers - own elements and ranges as arguments, copies, moves, self-moves, bad indexes, "
                     "exceeding a fixed capacity - where the allocator puts things and which allocations and copies fail."),
    "M05": dict(scn=["m05_sort.cpp"], runs=90000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws an algorithm, element type (lifetime-tracking with identity, all integer widths, floats with NaN and "
                     "both zeroes), up to 1200 keys in adversarial shapes around the algorithms' thresholds, elements before and after the "
                     "range, where data and scratch space lie, a comparator (also one that answers against the algorithm), failing allocations."),
    "M06": dict(scn=["m06_holders.cpp", "m06_chains.cpp"], runs=280000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws a holder kind, up to 40 constructions, assignments, copies, moves, resets and wrong questions on "
                     "three holders (themselves and their own content as arguments included), and which allocations and copies fail."),
    "M07": dict(scn=["m07_loops.cpp"], runs=280000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws a source (a range, or one that sometimes cannot answer) or a container, and a history of single questions, loops run to "
                     "their end, left by break or exception, nested, consuming, and enumerations."),
    "M04": dict(scn=["m04_str.cpp"], runs=160000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws a kind of text (byte buffer, C string, Unicode string, fixed string, views of memory that ends with "
                     "the text), up to 50 operations on up to three of them with lengths around buffer growth - parts of the text itself, "
                     "refused indexes, embedded zero bytes, invalid UTF-8, moves and reuse of moved-from objects included - and which "
                     "allocations fail."),
    "P01": dict(scn=["p01_paths.cpp"], runs=320000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws up to 40 operations on three paths - joining, taking apart and together again, names and extensions (with a "
                     "part of the path itself as argument), copies, moves - on drawn texts (now and then hundreds of parts or beyond 64 KiB), where the allocator puts things and which allocations "
                     "fail."),
    "O01": dict(scn=["o01_order.cpp"], runs=150000, real=[LIB], stub=HEAP_STUB,
                rule="Each run builds up to 28 objects - byte buffers, strings, Unicode strings, fixed strings, vectors and views - that hold "
                     "the same or nearly the same text, each through a drawn history (grown, cut, reused, copied, moved from, amid other text) "
                     "on memory with drawn placement and left-over contents, and compares and hashes every two alive; or numbers, floats with "
                     "every kind of NaN and zero; and which allocations fail."),
    "G01": dict(scn=["g01_args.cpp"], epochs=[2026], runs=250000, real=[LIB],
                stub=HEAP_STUB + ["process exit and standard output: recorded", "errno: left over from something else, drawn"],
                rule="Each run draws up to 16 steps: declarations of options (colliding ones included), command lines (attached and separate "
                     "values, repeated options, numbers around the limits, what must be rejected), results moved and changed; where the "
                     "allocator puts things and which allocations fail."),
    "R01": dict(scn=["r01_regex.cpp"], runs=150000, real=[LIB, "PCRE2 (its allocations redirected)"], stub=HEAP_STUB,
                rule="Each run draws up to 28 steps on three patterns (literals, classes, groups, alternatives, greedy and lazy repetition, "
                     "anchors, back references; malformed ones), three subjects with characters of one to four bytes and four matches: "
                     "compiling, searching, moving matches, destroying in drawn orders; where the allocator puts things and which "
                     "allocations fail."),
    "A01": dict(scn=["a01_oom.cpp", "m01_hash.cpp", "m02_tree.cpp", "m03_seq.cpp", "m04_str.cpp", "m05_sort.cpp", "m06_holders.cpp"],
                only=["oom_jobs", "_faults"], need_fault="alloc", runs=180000, real=[LIB], stub=FS_STUB,
                rule="Each run draws one of 16 kinds of work over the library (containers, text, formatting, sorting, regular expressions, "
                     "paths, files, glob, arguments) and its input, and which of its allocations fail - one, two or all from there on; or a "
                     "history on containers, strings, holders or sorts with failing allocations and copies at drawn operations."),
    "C04": dict(scn=["c04_own.cpp"], runs=55000, real=[LIB], stub=THR_STUB + FS_STUB[:1],
                rule="Each run draws 2-5 threads, the work each does on objects and files of its own (16 kinds, half of the runs all the "
                     "same kind), whether it is done alone before or after, and a scheduler configuration; now and then 46 threads."),
    "C05": dict(scn=["c05_shared.cpp"], runs=75000, real=[LIB], stub=THR_STUB + FS_STUB[:1],
                rule="Each run draws 1-2 shared objects of 10 kinds, 2-5 readers, the questions each asks (half of the runs all the same), and "
                     "a scheduler configuration; now and then up to 266 readers."),
    "A02": dict(scn=["a02_nested.cpp", "a02_aligned.cpp", "m01_hash.cpp", "m02_tree.cpp", "m03_seq.cpp", "m05_sort.cpp", "m06_holders.cpp", "m06_chains.cpp"],
                only=["nested_", "aligned", "wandering", "elem", "chains_", "wide"], ignore=NOT_LIFETIME, runs=170000, real=[LIB], stub=HEAP_STUB,
                rule="Each run draws containers of containers and holders, elements wandering between eight kinds of holders, elements of alignment 8 to 256, or the histories "
                     "of M01, M02, M03, M05 and M06 on elements that account for their own lifetime; where the allocator puts things and "
                     "which allocations and copies fail."),
    "W01": dict(scn=["w01_words.cpp"], epochs=[2026], extra=["tools/wordcount.cpp", "tools/wordsort.cpp"], runs=120000,
                real=[LIB, "the programs tools/wordcount.cpp and tools/wordsort.cpp, compiled unmodified (main renamed)"],
                stub=FS_STUB + ["standard output: collected"],
                rule="Each run draws a program, a file (words, white space, page boundaries, links, corrupted and binary content), which system "
                     "calls or allocations fail and at which system call another process replaces the file; 1-2 runs of the program; now and then tens of thousands of words or very long ones."),
    "H01": dict(scn=["h01_handles.cpp", "f01_load.cpp", "f02_lines.cpp", "f03_mmap.cpp", "f05_glob.cpp", "c03_thread.cpp"],
                only=["handles_", "load_faults", "load_concurrent", "lines_faults", "mapping_", "glob_faults", "glob_changing",
                      "thread_create_failure"],
                ignore=FILE_CONTENT, runs=190000, real=[LIB], stub=THR_STUB + FS_STUB,
                rule="Each run draws a history of loads, line loops left early or by exceptions, mappings, globs and threads that live side by "
                     "side, are moved and overwritten, with failing system calls, thread creation and allocations and another process removing "
                     "things; or threads doing so at the same time; or a history of F01, F02, F03, F05 or C03 with faults."),
}
