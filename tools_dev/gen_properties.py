#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to rewrite the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
TH = ["src/pystd2026_threading.cpp", "include/pystd2026_threading.hpp", "src/pystd2025_threading.cpp", "include/pystd2025_threading.hpp"]
HP = ["include/pystd2026.hpp", "include/pystd2025.hpp"]
CP = ["src/pystd2026.cpp", "src/pystd2025.cpp"]
FS = ["src/pystd2026_filesystem.cpp", "src/pystd2025_filesystem.cpp"]
BT = ["include/pystd2026_btree.hpp", "include/pystd2025_btree.hpp"]
HT = ["include/pystd2026_hashtable.hpp", "include/pystd2025.hpp"]
SORTS = ["include/pystd2026_%s.hpp" % x for x in ("introsort heapsort mergesort shellsort radixsort bucketsort indirect_sort nth_element partial_sort rotate stablepartition".split())]

prop("C01", "A mutex admits one holder at a time and orders everything its holders do",
 "However threads are scheduled, at most one of them is between a successful lock or try-lock and the matching unlock of a mutex, and everything a holder did before unlocking is visible to the next holder. A try-lock is refused only if some other thread could have held the mutex during the call, and a thread waiting for a mutex gets it once the holders have left. A thread that has let the next holder in touches the mutex no more, so the last user may destroy it.",
 ["schedules", "histories"], "every interleaving of any number of threads locking, try-locking, unlocking directly or through scoped guards, on one or several mutexes",
 "One test lets four threads add to one counter under a guard; it samples whatever schedules the machine happens to produce, never contends try-lock, and has no oracle for visibility or for wrongly refused try-locks.",
 TH, [m("Mutex::lock/try_lock/unlock over pthread_mutex_t", "src/pystd2026_threading.cpp"), m("LockGuard", "include/pystd2026_threading.hpp")],
 [s("m", "the native mutex", "include/pystd2026_threading.hpp")], ["lock", "try_lock", "unlock", "LockGuard construction and destruction"])
prop("C02", "Lock operations report failure truthfully; a guard releases exactly once",
 "If the operating system refuses a lock, try-lock or unlock, the caller is told (by an exception, or by a negative answer from try-lock) and the mutex is as it was before; success is reported only to a thread that really holds the mutex. A scoped guard acquires its lock once on entry and gives it up exactly once on every way out of the scope - normal end, early return or exception - and never if it was not acquired.",
 ["schedules", "fault_sequences", "histories"], "every sequence of lock operations with any subset of the underlying system calls failing, in every interleaving",
 "No test makes a pthread call fail and none leaves a guarded scope by exception.",
 TH, [m("return-code checks that throw", "src/pystd2026_threading.cpp"), m("LockGuard constructor/destructor", "include/pystd2026_threading.hpp")],
 observe=["exceptions and results of lock/try_lock/unlock", "ownership of the native mutex"])
prop("C03", "A thread object runs its function exactly once and is released exactly once",
 "The function runs exactly once, on a new thread, with the given context; what the creator did before is visible to it, and what it did is visible to whoever joins. Destroying a thread object waits for the thread unless it was joined or detached before; every started thread is joined or detached exactly once, detaching never waits, and if a thread cannot be started the creator gets an exception, nothing has run and nothing is left behind.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of creators, threads and destructors, every mix of join, detach and plain destruction, every failure of thread creation",
 "Tests create and destroy four threads once; join, detach and creation failure are never exercised and the order of events is whatever the host does.",
 TH, [m("Thread constructor, destructor, join, detach", "src/pystd2026_threading.cpp")],
 [s("thread_is_finalized", "the thread was joined or detached", "include/pystd2026_threading.hpp")], ["thread start and end", "pthread_create/join/detach and attribute calls"])
prop("C04", "Threads working on their own objects never interfere",
 "Whatever library facilities several threads use at the same time on objects of their own - containers, strings and Unicode conversion, formatting, sorting and selection, hashing, regular expressions, paths and files, of one epoch or of both - each gets exactly the results it would get running alone. No facility reads and writes state shared between threads without ordering.",
 ["schedules", "inputs"], "every interleaving, down to single memory accesses, of threads each running any sequence of library operations on private objects",
 "All tests but one are single-threaded; hidden shared scratch state (a static buffer, a lazily built table, a shared seed) passes all of them.",
 HP + CP + FS + HT + BT + SORTS + ["src/pystd2026_regex.cpp", "src/pystd2025_regex.cpp", "src/pystd2026_tables.cpp", "src/pystd2025_tables.cpp"],
 [m("no mutable namespace-scope or function-static state", "src/"), m("stack buffers in formatting", "src/pystd2026.cpp cformat_with_cb"), m("const conversion tables", "src/pystd2026_tables.cpp")],
 observe=["results per thread", "memory accesses to static and heap memory"])
prop("C05", "Reading a shared object from many threads needs no lock",
 "Once an object (string, view, byte buffer, vector, hash map or set, ordered map or set, path, compiled regular expression) is built and handed to other threads, any number of them may use its non-modifying operations at the same time: no such operation changes the object or anything reachable from it, and every thread gets the same answers a single reader gets.",
 ["schedules", "histories"], "every interleaving of any number of readers over any object built by any history of modifications",
 "No test shares an object between threads; a cache or a self-organising lookup inside a const operation passes every existing test.",
 HP + CP + HT + BT + ["include/pystd2026_regex.hpp", "src/pystd2026_regex.cpp", "src/pystd2025_regex.cpp"] + FS,
 [m("const member functions without hidden mutation", "include/pystd2026.hpp"), m("lookup/get/contains/iteration of hash and tree containers", "include/pystd2026_hashtable.hpp, include/pystd2026_btree.hpp"), m("match data is created per search", "src/pystd2026_regex.cpp")],
 observe=["results of const operations", "memory accesses to the shared object"])
prop("F01", "Loading a file yields its exact content or nothing",
 "Loading a file into memory yields either nothing or precisely the bytes the file contains: a failed open, seek or read never produces a prefix, padding or a repaired result and never ends the process, short reads are continued, and things without a loadable size (directories, pipes) yield nothing. If another process appends to, truncates, replaces or removes the file during the load, the result is nothing or a content the file had at some instant of the load. Loading as text yields those bytes if and only if they are valid UTF-8 without zero bytes, otherwise nothing.",
 ["fault_sequences", "inputs", "histories"], "every content and size, every placement of open/seek/read failures and short reads, every concurrent append or truncation, every corruption of the bytes",
 "One test loads one small text file from a healthy disk.",
 FS + CP, [m("load_bytes/load_text", "src/pystd2026_filesystem.cpp"), m("UTF-8 validation in the U8String constructor", "src/pystd2026.cpp")],
 observe=["returned optional", "open, seek, read calls"])
prop("F02", "Reading a file line by line delivers every byte exactly once, in order",
 "The lines handed out for a file, concatenated, are exactly its content; each one except possibly the last ends in a newline and contains no other newline, and the loop over lines delivers one element per line. The end is reported only when the file really has ended: a read error is never presented as the end of the file or as a complete line.",
 ["fault_sequences", "inputs"], "every content (long lines, no final newline, empty file, NUL bytes), every placement of short reads and read errors",
 "No test opens a file for line reading at all.",
 CP + HP, [m("File::readline_bytes", "src/pystd2026.cpp"), m("FileLineIterator", "src/pystd2026.cpp, include/pystd2026.hpp")],
 observe=["lines returned", "eof()", "read calls"])
prop("F03", "A file mapping shows exactly the file and is released exactly once",
 "A successful mapping exposes exactly the file's bytes with the file's exact length and stays readable until the object owning it is destroyed or overwritten, however often it is moved; the mapping is then released exactly once with its full length. If the file cannot be opened, sized or mapped, or is empty, the answer is nothing and nothing stays open.",
 ["fault_sequences", "histories", "inputs"], "every file size, every failing system call, every history of moves, assignments and destructions of mapping objects",
 "No test maps a file.",
 CP + HP, [m("mmap_file and MMapping", "src/pystd2026.cpp, include/pystd2026.hpp")],
 [s("buf/bufsize", "the live mapping", "include/pystd2026.hpp")], ["span()", "mmap/munmap/open/close calls"])
prop("F04", "Renaming is all-or-nothing and reported truthfully",
 "A rename reports success exactly if the target name now denotes the object the source name denoted and the source name is gone; when it fails, or the machine stops at any point, source and target are either both as before or both as after - the target is never missing, truncated or a partial copy. A rename onto a directory is refused, and asking whether a path exists, is a file or is a directory agrees with the disk at an instant of the question and never claims more than can be observed.",
 ["crash_points", "fault_sequences", "histories"], "every combination of source and target kinds, every failing system call, a machine stop before or after every system call, concurrent changes of the names by other processes",
 "No test renames anything; predicates are tested on a couple of fixed paths.",
 FS, [m("Path::rename_to, exists, is_file, is_dir", "src/pystd2026_filesystem.cpp")],
 observe=["return values", "content of the simulated disk at every system call"])
prop("F05", "A glob yields exactly the matching paths, whatever the directory does meanwhile",
 "On a tree that does not change, a glob yields every path below its root that matches the pattern and nothing else, each a usable path from the same root, in any order and however the directory orders its entries; segments match by * and ?, ** spans zero or more directories, and names with a leading dot are matched only by a pattern segment that starts with a dot; symbolic links are names like any other but are never entered. When directories vanish, appear or cannot be read during the walk, every path yielded existed during the walk and matches, and everything in readable directories that did not change is still yielded.",
 ["schedules", "fault_sequences", "inputs", "histories"], "every tree and pattern, every directory order, every failure to open or read a directory, every concurrent creation and deletion",
 "No test runs a glob.",
 FS, [m("GlobResultInternal::next/enter_subdir, glob_matches, glob_starstar_dirs", "src/pystd2026_filesystem.cpp")],
 [s("dir_stack", "open directories with the pattern part they are matched against", "src/pystd2026_filesystem.cpp")], ["paths returned by next()", "opendir/readdir/closedir calls"])
prop("H01", "Every system handle is released exactly once, on every path",
 "Every file, directory stream, memory mapping and thread attribute object the library acquires is released exactly once: when the operation that needed it ends, or when the object owning it is destroyed or overwritten. This holds for successful, failing and abandoned operations alike - I/O errors, invalid content, iteration given up half-way, exceptions - and no handle is used after its release.",
 ["fault_sequences", "histories"], "every sequence of file, directory, mapping and thread operations with any subset of system calls failing and any iteration abandoned at any point",
 "Tests never inject a failing call and never count open handles.",
 FS + CP + HP + TH, [m("fclose on each exit of load_bytes/mmap_file", "src/pystd2026_filesystem.cpp, src/pystd2026.cpp"), m("unique_ptr<DIR, DirCloser>", "src/pystd2026_filesystem.cpp"), m("File and MMapping destructors", "src/pystd2026.cpp"), m("attribute destruction in the Thread constructor", "src/pystd2026_threading.cpp")],
 observe=["open/close, opendir/closedir, mmap/munmap, attribute init/destroy calls"])
prop("A01", "Running out of memory never yields a wrong result or touches invalid memory",
 "If any allocation fails during any operation, the operation either still succeeds correctly, or ends in an exception after which every object involved holds its old or its new value and can be used and destroyed, or the process stops at once. It never returns a wrong result, reads or writes memory that is not its own (including through a null pointer), or leaks what it had allocated.",
 ["fault_sequences", "inputs", "histories"], "every operation of every container, string, algorithm, file and regex facility, with the k-th allocation failing for every k",
 "No test makes an allocation fail.",
 HP + CP + HT + BT + FS + SORTS, [m("allocate_native/allocate_aligned_native and operator new", "src/pystd2026.cpp"), m("noexcept functions turn bad_alloc into termination", "include/pystd2026.hpp")],
 observe=["results and exceptions", "memory accesses", "live heap blocks"])
prop("A02", "Stored elements are constructed, moved and destroyed exactly once",
 "Containers (vector, fixed vector, stack, hash and ordered maps and sets), holders (optional, expected, variant, unique pointers) and algorithms never lose, duplicate, leak, use before construction or use after destruction an element they were given: what was inserted and not removed is there, each element constructed is destroyed exactly once and lies where its type's alignment allows, and all memory is returned when the owner is gone. This holds for any history of insertion, removal, copying, moving (self-moves and moved-from objects included) and growth, wherever the allocator places memory.",
 ["histories", "inputs", "configurations"], "every history of operations on every container and holder, with every placement and reuse of memory by the allocator",
 "Tests use short fixed histories, mostly of integers, on a friendly allocator, and do not count constructions and destructions.",
 HP + HT + BT + ["include/pystd2026_variant.hpp"] + SORTS, [m("placement new and explicit destructor calls", "include/pystd2026.hpp"), m("slot state arrays", "include/pystd2026_hashtable.hpp"), m("Optional/Expected/Variant state tags", "include/pystd2026.hpp, include/pystd2026_variant.hpp")],
 observe=["constructor/destructor calls of instrumented elements", "live heap blocks"])
prop("M01", "A hash map or set answers like a dictionary after any history, wherever it lives",
 "After any history of insertions, overwrites, removals, clears, copies of references and moves, lookups, sizes and iteration of a hash map or set agree with a plain dictionary that saw the same history: each key at most once, latest value, removed keys absent. Every operation terminates, also on tables that were filled and emptied many times, and the answers do not depend on where in memory the container was created (its salt) or how keys collide.",
 ["histories", "inputs", "configurations"], "every history, every key set including colliding keys, every address of the container object",
 "Tests insert and remove a few keys at whatever address the process happens to use; long insert/remove histories and colliding keys are not reached.",
 HT, [m("open addressing with per-slot state, salted by the object's address", "include/pystd2026_hashtable.hpp, include/pystd2025.hpp")],
 [s("has_value/has_tombstone slot state", "which slots are live or deleted", "include/pystd2026_hashtable.hpp"), s("salt", "address of the map", "include/pystd2026_hashtable.hpp")], ["lookup/contains/size/iteration"])
prop("M02", "An ordered map or set answers like a sorted dictionary after any history",
 "After any history of insertions, removals and moves, an ordered map or set contains exactly the keys a sorted dictionary with the same history contains, with their latest values; iteration delivers them in strictly ascending order, each once, and every lookup finds exactly the keys present. Internal growth, splitting, borrowing and merging never make an element unreachable or misplaced.",
 ["histories", "inputs", "configurations"], "every history over every node size, with memory placed and reused in any way",
 "Tests run a handful of fixed insertion and deletion orders with one or two node sizes.",
 BT, [m("BTree insert/remove with split, shift and merge of nodes kept in a growing vector", "include/pystd2026_btree.hpp")],
 [s("nodes/root", "node storage indexed by position", "include/pystd2026_btree.hpp")], ["lookup", "iteration", "size"])
prop("M03", "Vectors and stacks are exact sequences; refused operations change nothing",
 "After any history of appends (also of their own elements), insertions, deletions, copies, moves, reserves and clears, a vector, fixed vector or stack holds exactly the elements of the abstract sequence, in order, with matching size, also when seen through constant references, iterators and spans. An operation that is refused - index out of range, fixed capacity exhausted - reports it and leaves the sequence unchanged, and no operation depends on whether or where the storage moves.",
 ["histories", "inputs", "configurations"], "every history of operations on every element type, with storage placed, moved and reused in any way",
 "Tests run short fixed sequences; self-insertion at the growth boundary, refused operations followed by more work, and hostile placement are not covered.",
 HP, [m("reserve/resize_capacity_to, is_ptr_within", "include/pystd2026.hpp Vector"), m("insert/delete_at/move_append", "include/pystd2026.hpp FixedVector")],
 observe=["size, indexing, iteration"])
prop("M04", "Strings and byte buffers hold exactly their history and stay well-formed",
 "After any history of appending, inserting, removing, resizing, slicing, splitting, case conversion, copying and moving - including operations whose argument is part of the string itself - a string or byte buffer holds exactly the expected bytes; a C string is always terminated right after its last character and a Unicode string is always valid UTF-8. An operation that is refused (bad index, invalid input) reports it and leaves the string unchanged.",
 ["histories", "inputs", "configurations"], "every history of operations with every content, with storage placed, moved and reused in any way",
 "Tests check single operations on short literals; aliasing arguments, growth boundaries, moved-from strings and refusal atomicity are not sampled.",
 HP + CP, [m("Bytes::grow_to and the string operations built on it", "src/pystd2026.cpp"), m("CString terminator upkeep, U8String validation", "src/pystd2026.cpp")],
 observe=["bytes, size, terminator", "validity of Unicode strings"])
prop("M05", "Sorting, selection and partitioning are right wherever the data lies",
 "Every sorting, selection, merging, rotation and partitioning algorithm leaves exactly the elements it was given, ordered (and in their original relative order where stability is promised) or split as it promises, without touching memory outside its range. The outcome does not depend on where in memory the data or scratch space lies, although selection draws its pivots from addresses.",
 ["inputs", "configurations", "fault_sequences"], "every sequence and comparator, every address of the data, every placement and exhaustion of scratch memory",
 "Tests sort a few arrays at whatever address they have; the pivot choice by address is never varied, and reads or writes just outside the range are not observed.",
 SORTS + HP, [m("pivot choice from element addresses", "include/pystd2026_nth_element.hpp"), m("scratch buffers", "include/pystd2026_mergesort.hpp"), m("insertion_sort_has_sentinel", "include/pystd2026.hpp")],
 observe=["the sequence afterwards", "memory accesses around it"])
prop("M06", "Optional, expected, variant and owning pointers always hold what was last put in",
 "After any history of construction, assignment, copying, moving, resetting and failed copies, an optional, expected, variant or owning pointer reports and returns exactly the state last put into it - the right alternative with the right value, an error as that error, nothing as nothing - and copying or moving transfers exactly that and leaves the source valid (an optional that held a value: empty). An owning pointer that is given another object does not lead to the old one any more while that is deleted. Asking for what is not there is refused and changes nothing.",
 ["histories", "fault_sequences", "configurations"], "every history over every pair of states (value, error, empty, each alternative), with copies that fail part-way and hostile memory",
 "Tests exercise a few direct state changes; most pairs of source and target state, and copies that fail, are never reached.",
 HP + ["include/pystd2026_variant.hpp"], [m("state tags with placement new in raw storage", "include/pystd2026.hpp Expected/Optional/unique_ptr/unique_arr"), m("Variant type index", "include/pystd2026_variant.hpp")],
 observe=["has_value/has_error/contains, values"])
prop("M07", "Loops deliver every element of a source or container once, wherever left",
 "A loop over a source of elements (a range, a glob, anything that answers next()) delivers exactly the elements that are still to come, in order, each once; elements not delivered when a loop is left by a break or an exception, or when the source cannot answer for a moment, are delivered by the next loop or question - also for loops within loops over one source and for loops that own their source - and every element is released exactly once. An enumerating loop numbers the elements of its container from zero and gives access to the elements themselves.",
 ["histories", "fault_sequences", "configurations"], "every history of questions and of complete, abandoned, nested and owning loops over every source, with sources that fail at any point",
 "Tests run each kind of loop once from beginning to end over ten numbers.",
 HP + CP, [m("LoopView, Loopsume, EnumerateView, Range", "include/pystd2026.hpp, include/pystd2025.hpp"), m("Range::next", "src/pystd2026.cpp, src/pystd2025.cpp")],
 observe=["elements and numbers seen by loop bodies, results of next()"])
prop("W01", "Whole programs on the library count and sort words exactly or fail visibly",
 "The word-counting and word-sorting programs shipped with the library print, for every input file, exactly the words of that file with their exact multiplicities, or all words in order; when the file cannot be read completely they do not print a result as if it had been.",
 ["inputs", "fault_sequences"], "every text file, every placement of read failures and short reads",
 "The programs are built but never run by the tests.",
 ["tools/wordcount.cpp", "tools/wordsort.cpp"] + CP + HT, [m("main programs over file, string, hash map, vector and sort", "tools/")],
 observe=["standard output and exit status"])
# ---- not applicable to this family -------------------------------------------------------------
prop("P01", "Paths keep their components through any history",
 "After any history of construction, joining, copying, moving and replacing the extension - parts of the path itself as arguments included - a path holds exactly the expected text, without a trailing slash unless it is the root; joining onto an absolute path gives that path; the file name is the last component, the extension the last part of the file name from its last dot on, and splitting delivers the non-empty components in order, which joined again denote the same path. A failed operation leaves every path with its old or its new text.",
 ["histories", "inputs", "fault_sequences"], "every history of path operations over any component texts, any placement of memory and any failing allocation",
 "Tests join a handful of fixed paths and take one extension; dots in directory names, own parts as arguments, moved-from paths and failing allocations never occur.",
 FS + HP + CP, [m("Path constructors strip trailing slashes", "src/pystd2026_filesystem.cpp"), m("operator/, extension, filename, split, replace_extension", "src/pystd2026_filesystem.cpp"), m("CString rfind, substr, split_by", "src/pystd2026.cpp")],
 observe=["text, size and parts of every path after every operation"])
prop("U01", "Unicode case conversion and decoding follow the Unicode tables",
 "Upper- and lower-casing maps every code point as the Unicode special and simple case mappings say, and iterating a valid string forwards and backwards delivers its code points in order.",
 ["inputs"], "every code point and every valid string", "Tests sample some words in a few scripts.",
 ["src/pystd2026_tables.cpp", "src/pystd2025_tables.cpp"] + CP, [m("uppercase_unicode/lowercase_unicode table search", "src/pystd2026.cpp")])
prop("O01", "Comparisons, equality and hashes depend only on what the objects hold",
 "For byte buffers, strings, views, fixed strings, vectors, integers and floats under total order, the result of a comparison and a hash depend only on what the objects hold: not on how they came to hold it, what they held before, where they lie in memory or what lies around them. Comparison is a total order consistent with equality (bytes as unsigned values, shorter first; NaNs equal to each other and after every number, both zeroes equal), natural ordering is a strict weak order in which runs of digits compare as numbers, objects of different types that hold the same text compare equal in both directions, and equal keys hash equally whatever string or view type carries them.",
 ["histories", "inputs", "configurations"], "every pair and triple of values, each reached through every history, at every place in memory with any left-over contents", "Tests compare a few fixed pairs of freshly made objects.",
 HP + CP, [m("operator<=>, operator==, natural_order, total_order_compare, feed_hash", "src/pystd2026.cpp, include/pystd2026.hpp, src/pystd2025.cpp, include/pystd2025.hpp")],
 observe=["results of comparisons", "hash values", "memory accesses"])
prop("R01", "Regular expression matches report what the pattern says",
 "A search finds the leftmost match the pattern defines, with the alternatives tried in Perl's order; the number of groups, every group's text and place, and the text of a group that took no part (empty) are exactly those of that match, and stay so while the match is moved, other searches run and the pattern is gone. A malformed pattern, a subject without match, a group that does not exist and running out of memory are reported by an exception, never by a wrong answer.",
 ["inputs", "histories", "fault_sequences"], "every pattern and subject, every history of patterns, subjects and matches alive side by side, any placement of memory and any failing allocation",
 "Tests try a few patterns on ASCII text, one at a time, without failures.",
 ["src/pystd2026_regex.cpp", "src/pystd2025_regex.cpp", "include/pystd2026_regex.hpp"], [m("regex_search over PCRE2", "src/pystd2026_regex.cpp"), m("U8Match offsets, ownership of the match data", "src/pystd2026_regex.cpp"), m("U8Regex owns the compiled pattern", "src/pystd2026_regex.cpp")],
 observe=["every group's text and place after every step", "exceptions", "allocations alive"])
prop("G01", "Argument parsing assigns every command-line word as declared",
 "Whatever options were declared, defaults given, lines parsed before and memory available: every accepted command line sets exactly the given options to exactly the given values - the last one wins, arrays collect in order, an empty value is a value - and leaves every other option at its default; its result owns what it holds. Declarations that collide, unknown options, missing values, values for flags, integers that are no numbers or out of range, and positional words where none are permitted are refused visibly: an exception, or a message and a failure status. Asking for help prints every option and ends with success.",
 ["inputs", "histories", "fault_sequences"], "every set of declarations, every sequence of command lines, any placement of memory and any failing allocation",
 "Tests parse a few correct command lines; refusals, limits, repeated parsing, lifetimes of results and failing allocations never occur.",
 ["src/pystd2026_argparse.cpp", "include/pystd2026_argparse.hpp"], [m("ArgParse::parse_args, process_long_argument, process_short_argument", "src/pystd2026_argparse.cpp"), m("add_argument refuses collisions", "src/pystd2026_argparse.cpp"), m("create_value_obj copies the defaults", "src/pystd2026_argparse.cpp")],
 observe=["values of every parse result after every step", "exit status and output when the program ends"])
prop("E01", "Epochs coexist and a released epoch stays frozen",
 "Code using the 2025 and the 2026 epoch links into one program without either changing the other's behaviour, and the interface of a released epoch does not change.",
 ["programs"], "every program using either or both epochs", "Tests are built per epoch; link-level coexistence is only incidental.",
 HP, [m("separate namespaces and source files per epoch", "include/, src/")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
