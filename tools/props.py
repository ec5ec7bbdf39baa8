#!/usr/bin/env python3
"""The properties, and the generator of properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "IPv4 text parsing accepts exactly dotted quads",
 "Parsing a string as an IPv4 address succeeds exactly when the string is four decimal numbers of one to three digits, each at most 255, separated by single dots, and then yields those four octets in network order. Every other string is refused with a parse error, without touching memory outside the string.",
 ["inputs"], "every byte string",
 "The tests parse about twenty hand-picked addresses; the accept/reject boundary is over all strings (an empty octet was accepted).",
 ["src/libcork/core/ip-address.c", "include/libcork/core/net-addresses.h"],
 [("one-pass IPv4 scanner", "src/libcork/core/ip-address.c")], ["cork_ipv4_init"])
prop("C02", "IPv6 text parsing accepts exactly the textual forms of RFC 4291",
 "Parsing a string as an IPv6 address succeeds exactly for eight colon-separated groups of one to four hexadecimal digits, the forms with one double-colon standing for at least one zero group, and either form with a dotted-quad tail, and yields the sixteen octets those denote. Every other string is refused with a parse error, without touching memory outside the string.",
 ["inputs"], "every byte string",
 "The tests use a few dozen addresses; the grammar has a combinatorial number of shapes and near-misses (eight groups plus a double-colon was accepted).",
 ["src/libcork/core/ip-address.c", "include/libcork/core/net-addresses.h"],
 [("IPv6 scanner with separate before/after-double-colon halves", "src/libcork/core/ip-address.c")], ["cork_ipv6_init"])
prop("C03", "IP addresses survive printing, parsing and copying",
 "Printing any IPv4 or IPv6 address gives a string that fits the documented buffer and parses back to the same address; IPv6 text is lower case without leading zeros, with the longest run of two or more zero groups abbreviated. A generic address keeps its version and octets, two addresses are equal exactly when version and octets agree, and parsing a generic address gives what the version-specific parser gives.",
 ["inputs"], "every 32-bit and every 128-bit address",
 "The tests print a handful of addresses; there are 2^128 addresses in 256 zero-group shapes.",
 ["src/libcork/core/ip-address.c", "include/libcork/core/net-addresses.h"],
 [("raw string printers and equality", "src/libcork/core/ip-address.c")], ["cork_ipv4_to_raw_string", "cork_ipv6_to_raw_string", "cork_ip_to_raw_string", "cork_ip_init"])
prop("C04", "CIDR prefix validity is decided on every host bit",
 "An address is a valid network for a prefix length exactly when the prefix length does not exceed the address width and every bit after the prefix is zero, for IPv4, IPv6 and generic addresses alike.",
 ["inputs"], "every address and every prefix length",
 "The tests check a few octet-aligned networks; byte order inside a group only shows for other prefixes (it was wrong for IPv6).",
 ["src/libcork/core/ip-address.c"], [("prefix masks", "src/libcork/core/ip-address.c")], ["cork_ipv4_is_valid_network", "cork_ipv6_is_valid_network", "cork_ip_is_valid_network"])
prop("C05", "128-bit integers obey 128-bit arithmetic",
 "Addition, subtraction, shifts by 0 to 127, the six comparisons, construction and big-endian access on 128-bit unsigned integers give exactly the result of arithmetic modulo 2^128, on compilers with and without a native 128-bit type.",
 ["inputs", "configurations"], "every pair of 128-bit operands, every shift distance, both representations",
 "The tests replay a file of random operand pairs; carries across the halves and the two-word build are only sampled.",
 ["include/libcork/core/u128.h", "src/libcork/core/u128.c"], [("native and two-word branches of each operation", "include/libcork/core/u128.h")], ["cork_u128_add", "cork_u128_shl"])
prop("C06", "128-bit integers print their exact value",
 "The decimal, hexadecimal and padded hexadecimal texts of a 128-bit integer denote exactly its value, have no leading zeros (padded: exactly 32 digits), and together with their terminator never exceed the documented buffer sizes.",
 ["inputs"], "every 128-bit value",
 "The tests print a list of random values; borrow and carry chains of the decimal algorithm are only sampled.",
 ["src/libcork/core/u128.c"], [("doubling algorithm for decimal", "src/libcork/core/u128.c")], ["cork_u128_to_decimal", "cork_u128_to_hex", "cork_u128_to_padded_hex"])
prop("C07", "Byte-order conversion is right for any argument expression",
 "Swapping reverses the bytes of a 16-, 32-, 64- or 128-bit value, host-to-big gives a value whose memory holds the most significant byte first and host-to-little the least significant first, and the reverse conversions undo them, for any expression passed as argument. The in-place forms change exactly the variable they are given.",
 ["inputs", "programs"], "every value, and argument expressions of every operator precedence",
 "The tests apply the macros to literals and plain variables; an unparenthesised argument only shows with compound expressions.",
 ["include/libcork/core/byte-order.h", "include/libcork/core/u128.h"], [("swap macros", "include/libcork/core/byte-order.h")], ["CORK_SWAP_UINT32"])
prop("C08", "Timestamps keep time when converted between units",
 "A timestamp stores the given seconds and a fraction to within one gammasecond; a fraction set in milli-, micro- or nanoseconds reads back unchanged in that unit; any fraction read in a unit is the nearest whole number of units and always less than one second. Timestamps order as time does.",
 ["inputs"], "every second and every fraction in every unit",
 "The tests convert round fractions such as one half; rounding at the top of a second is never reached (it overflowed to a full second).",
 ["include/libcork/core/timestamp.h"], [("rounding conversion", "include/libcork/core/timestamp.h")], ["cork_timestamp_msec", "cork_timestamp_init_nsec"])
prop("C09", "Timestamp formatting follows its format string",
 "Formatting appends to the buffer the format with each specifier replaced by the documented field (zero-padded; a fraction of exactly the requested one to nine digits), and reports an error exactly when a specifier is unknown, unfinished, or a fraction width is outside 1 to 9. What was in the buffer before stays.",
 ["inputs"], "every timestamp and every format string",
 "The tests use three dates and a few formats; parsing of specifiers and widths is over all strings.",
 ["src/libcork/core/timestamp.c"], [("format loop", "src/libcork/core/timestamp.c")], ["cork_timestamp_format_utc", "cork_timestamp_format_local"])
prop("C10", "Hashes are exact MurmurHash3 of the bytes given",
 "The stable hash of a byte sequence is MurmurHash3 x86-32 over little-endian words on every platform; the big hash is MurmurHash3 x64-128 and the ordinary hash its leading word. They depend only on the seed and the bytes, never on alignment or on memory outside the sequence, and big hashes are equal exactly when all bits agree.",
 ["inputs"], "every byte sequence and seed",
 "The tests hash a few literals; each tail length, and reads past an exactly sized buffer, need all lengths and contents.",
 ["include/libcork/core/hash.h", "src/libcork/core/hash.c"], [("block loop and tail switch", "include/libcork/core/hash.h")], ["cork_stable_hash_buffer", "cork_big_hash_buffer", "cork_hash_buffer"])
prop("C11", "A bit set holds exactly the bits put into it",
 "After any sequence of operations each bit of a bit set reads as the last value written to it (or false if cleared or never written), setting one bit never changes another, and no memory outside the set is touched, for any number of bits.",
 ["inputs", "histories"], "every bit count and sequence of sets, unsets and clears",
 "The tests set a few bits in sets of a few sizes; interference between neighbours is over all index pairs.",
 ["src/libcork/ds/bitset.c", "include/libcork/ds/bitset.h"], [("mask macros", "include/libcork/ds/bitset.h")], ["cork_bitset_get", "cork_bitset_set"])
prop("C12", "A ring buffer is a bounded first-in first-out queue",
 "Adding succeeds exactly while fewer than capacity elements are queued, peeking and popping return the oldest element in insertion order (nothing when empty), and the empty and full tests agree with the number queued, across any number of wrap-arounds.",
 ["histories", "inputs"], "every capacity and every sequence of adds, pops and peeks",
 "The tests run one short scripted sequence on one capacity; wrap-around interacts with every capacity and history.",
 ["src/libcork/ds/ring-buffer.c"], [("read/write indices", "src/libcork/ds/ring-buffer.c")], ["cork_ring_buffer_add", "cork_ring_buffer_pop"])
prop("C13", "A doubly linked list is its sequence of elements",
 "After any sequence of insertions at either end or next to an element, removals, and list splices, walking the list forwards and backwards yields exactly the expected elements in order; size, emptiness, head and tail agree with it. Visiting stops at and returns the first non-zero result, and the current element may be removed while iterating.",
 ["histories"], "every sequence of list operations",
 "The tests run a couple of scripted lists; splicing with empty lists and removal during iteration have many shapes.",
 ["src/libcork/ds/dllist.c", "include/libcork/ds/dllist.h"], [("link macros", "include/libcork/ds/dllist.h")], ["cork_dllist_visit", "cork_dllist_add_list_to_tail"])
prop("C14", "A resizable array is the sequence of elements put in it",
 "After any sequence of appends, removals of any range, clears, reservations and copies the array holds exactly the expected elements in order; reserved space is usable without moving the elements; a copy equals its source and leaves the source unchanged, and a failing copy callback is reported.",
 ["histories", "inputs"], "every sequence of operations, index, count and element value",
 "The tests append and remove a few integers; index and count combinations against every capacity state are not sampled.",
 ["src/libcork/ds/array.c", "include/libcork/ds/array.h"], [("geometric growth, range removal", "src/libcork/ds/array.c")], ["cork_array_append", "cork_array_remove_range", "cork_array_copy"])
prop("C15", "Array element callbacks pair up exactly",
 "Each array slot sees its callbacks in the documented order: init when first used, remove when its element leaves the array, reuse when it is used again, done once when the array is finalized. Pointer and string arrays therefore release every element exactly once.",
 ["histories"], "every sequence of array operations",
 "The tests count callbacks in one script; double or missing callbacks appear only in particular mixes of removal, clearing and reuse.",
 ["src/libcork/ds/array.c"], [("initialized count vs size", "src/libcork/ds/array.c")], ["cork_array_set_init", "cork_pointer_array_init", "cork_string_array_append"])
prop("C16", "A buffer holds exactly what was written, NUL-terminated",
 "After any sequence of sets, appends, truncations and clears a buffer's contents and size are exactly the bytes written, followed by a NUL byte once it has held anything; existing content survives every growth, and nothing outside the allocation is touched. Buffers are equal exactly when their contents are.",
 ["histories", "inputs"], "every sequence of buffer operations and every content",
 "The tests build a few strings; growth boundaries depend on exact sizes and histories.",
 ["src/libcork/ds/buffer.c", "include/libcork/ds/buffer.h"], [("ensure_size growth", "src/libcork/ds/buffer.c")], ["cork_buffer_append", "cork_buffer_set", "cork_buffer_truncate"])
prop("C17", "Formatted appends to buffers are complete and exact",
 "Formatting into a buffer of any state appends the whole formatted text; the C-string form is a literal that denotes the input bytes; the hex dump and binary forms show every input byte in order with the documented layout. A failing formatter leaves the buffer as it was.",
 ["inputs", "histories"], "every input byte string, indentation and buffer state",
 "The tests format a few literals; the text length that just fits the buffer, and each byte class, need all values.",
 ["src/libcork/ds/buffer.c"], [("two-pass printf, escape tables", "src/libcork/ds/buffer.c")], ["cork_buffer_append_printf", "cork_buffer_append_c_string", "cork_buffer_append_hex_dump"])
prop("C18", "Managed buffers live exactly as long as they are referenced",
 "A managed buffer is freed exactly once, when its last reference is dropped, however references are taken through direct reference, slices or copies; until then its contents are those given at creation.",
 ["histories"], "every sequence of ref, unref, slice, copy and finish operations",
 "The tests follow one or two reference sequences.",
 ["src/libcork/ds/managed-buffer.c", "src/libcork/ds/slice.c", "src/libcork/ds/buffer.c"], [("reference count", "src/libcork/ds/managed-buffer.c")], ["cork_managed_buffer_ref", "cork_managed_buffer_unref"])
prop("C19", "Slices never reach outside their buffer",
 "Slicing succeeds exactly when offset and length lie within the parent (for every size_t pair), then denotes exactly those bytes; otherwise there is an error, a new slice is empty and one sliced in place is left as it was. A full copy stays readable until it is finished, whatever becomes of the slice it was copied from. Slice equality is equality of bytes.",
 ["inputs"], "every buffer length, offset and length, including those whose sum wraps",
 "The tests use small offsets; arithmetic wrap-around needs extreme values.",
 ["src/libcork/ds/slice.c", "src/libcork/ds/managed-buffer.c"], [("bounds tests", "src/libcork/ds/slice.c")], ["cork_slice_copy", "cork_slice_slice", "cork_managed_buffer_slice"])
prop("C20", "Stream consumers receive the whole file in order",
 "A consumer fed from a file or descriptor receives exactly the bytes read, in order, with the first-chunk mark on the first chunk only and one end-of-file call; a consumer writing to a file or descriptor writes every byte given to it, however reads and writes are split or interrupted, and read, write and consumer errors are reported.",
 ["fault_sequences", "inputs"], "every split of reads and writes, every interruption and error point",
 "The tests read small files in one read; short writes and interruptions do not occur.",
 ["src/libcork/ds/file-stream.c", "src/libcork/ds/stream.c"], [("read and write loops", "src/libcork/ds/file-stream.c")], ["cork_consume_fd", "cork_fd_consumer_new"])
prop("C21", "A hash table is a map",
 "After any sequence of puts, deletions, get-or-creates, clears and resizes, a hash table contains exactly the latest value for each key, finds it under every equal key and reports the right size, for any hash and equality functions, including when every key collides.",
 ["histories", "inputs"], "every history, key set and hash function",
 "The tests insert distinct integers with a good hash; collisions and resizes during histories are sampled thinly.",
 ["src/libcork/ds/hash-table.c"], [("bin lists and resize", "src/libcork/ds/hash-table.c")], ["cork_hash_table_put", "cork_hash_table_get", "cork_hash_table_delete"])
prop("C22", "Hash table iteration is in insertion order and honours the mapper",
 "Iterating, mapping and visiting deliver every entry exactly once in order of first insertion; a mapper may keep, delete or abort at each entry and exactly the chosen entries go. Replaced keys and values are handed back to the caller; deleted ones, everything left at the end and the user data are released exactly once through the given callbacks.",
 ["histories"], "every history and every choice of map results",
 "The tests map one table with one pattern.",
 ["src/libcork/ds/hash-table.c"], [("insertion-order list", "src/libcork/ds/hash-table.c")], ["cork_hash_table_map", "cork_hash_table_iterator_next"])
prop("C23", "A memory pool hands out distinct, aligned, reusable objects",
 "Objects taken from a pool and not yet returned never overlap, are large enough and aligned for pointers, keep their contents until returned, and returned objects are reused before new memory is taken; init and done callbacks run once per object over its whole life, and all memory is released with the pool.",
 ["histories", "inputs"], "every element size, block size and sequence of allocations and returns",
 "The tests use one element size and block size.",
 ["src/libcork/core/mempool.c"], [("free list and block carving", "src/libcork/core/mempool.c")], ["cork_mempool_new_object", "cork_mempool_free_object"])
prop("C24", "Garbage collection frees exactly what is unreachable",
 "An object is never released while the program or a live object still holds a reference to it, and once unreachable from held references, cycles included, it is released exactly once by the time the collector is finished.",
 ["histories", "programs"], "every object graph and order of reference changes",
 "The tests build three small graphs; multi-parent cycles and double edges have many shapes.",
 ["src/libcork/core/gc.c"], [("trial deletion of cycles", "src/libcork/core/gc.c")], ["cork_gc_decref", "cork_gc_done"])
prop("C25", "Allocators give the memory asked for and account for it",
 "Every allocator, custom ones with missing operations included, returns blocks of the requested size with the promised contents (zeroed, copied or preserved), frees with the size allocated, and aborts instead of returning null only in the non-failing variants; duplicated strings equal their source and report its length; the checking allocator aborts exactly on a wrong size.",
 ["inputs", "fault_sequences"], "every size and string, with allocation failing at any point",
 "The tests allocate a few blocks and never make allocation fail.",
 ["src/libcork/core/allocator.c", "include/libcork/core/allocator.h"], [("default implementations on top of xmalloc", "src/libcork/core/allocator.c")], ["cork_alloc_new_alloc", "cork_strdup", "cork_debug_alloc_new"])
prop("C26", "The error condition is exactly the last error set",
 "After any sequence of setting, prefixing and clearing, the error code and message are those of the last error since the last clear with every later prefix in front, each error belongs to its thread, and messages of any length are complete.",
 ["histories", "inputs"], "every sequence of error operations and message contents",
 "The tests set a couple of errors; aliasing between the message and its prefix, and growth, are not reached.",
 ["src/libcork/core/error.c"], [("two swapped message buffers per thread", "src/libcork/core/error.c")], ["cork_error_set_printf", "cork_error_prefix_printf", "cork_error_message"])
prop("C27", "Path joining and splitting follow the documented lexical rules",
 "Joining gives the second path when it is absolute or the first is empty, otherwise both separated by exactly one slash; base name is what follows the last slash and directory name what precedes it. The input paths are not modified and join, base and directory names agree with each other.",
 ["inputs"], "every pair of path strings",
 "The tests join and split a table of paths.",
 ["src/libcork/posix/files.c"], [("path string functions", "src/libcork/posix/files.c")], ["cork_path_join", "cork_path_basename", "cork_path_dirname"])
prop("C28", "Path lists parse, print and search in order",
 "A path list holds exactly the colon-separated components of its string in order and prints back to it; searching returns the first existing candidate in list order, a file-list search all of them in order, and an error when there is none.",
 ["inputs", "configurations"], "every path string and every set of existing files",
 "The tests search one fixed tree.",
 ["src/libcork/posix/files.c"], [("path list", "src/libcork/posix/files.c")], ["cork_path_list_new", "cork_path_list_find_file"])
prop("C29", "Standard directories follow the XDG rules",
 "Each standard directory or search path is taken from its environment variable when set and not empty, and otherwise is the documented default below the home directory or system; a missing home directory is an error.",
 ["configurations"], "every combination and content of the environment variables",
 "The tests try a few environments.",
 ["src/libcork/posix/files.c"], [("environment lookups", "src/libcork/posix/files.c")], ["cork_path_config_paths", "cork_path_user_cache_path"])
prop("C30", "File operations report every failure and honour their flags",
 "Creating, removing and inspecting files performs exactly the system calls its flags describe and returns an error with the system's reason whenever one fails, except for the failures the permissive and recursive flags excuse; nothing outside the named path is removed.",
 ["fault_sequences", "configurations"], "every outcome of every system call, every flag combination",
 "The tests exercise the success paths and a few errors.",
 ["src/libcork/posix/files.c"], [("flag handling around mkdir, open, unlink, rmdir", "src/libcork/posix/files.c")], ["cork_file_create", "cork_file_remove", "cork_file_exists"])
prop("C31", "Directory traversal reports every entry once, and every error",
 "Iterating or walking a directory calls back once for every entry except the self and parent entries, in a walk with matched enter and leave calls around each subdirectory and the right full, relative and base names; a callback result or system error stops it and is reported, and every directory opened is closed.",
 ["fault_sequences", "configurations"], "every directory shape, callback result and failing system call",
 "The tests walk one fixed tree without failures.",
 ["src/libcork/posix/directory-walker.c", "src/libcork/posix/files.c"], [("recursive walk with one path buffer", "src/libcork/posix/directory-walker.c")], ["cork_walk_directory", "cork_file_iterate_directory"])
prop("C32", "An environment is a map from names to values",
 "After any sequence of additions, replacements and removals an environment yields the latest value for each name and nothing for others; cloning the process environment takes every variable with its full value, and making an environment current sets exactly its variables.",
 ["histories", "inputs"], "every sequence of operations and every name and value",
 "The tests add and read a few variables; removal of absent names and values with equals signs are not covered.",
 ["src/libcork/posix/env.c"], [("hash table of name=value", "src/libcork/posix/env.c")], ["cork_env_add", "cork_env_remove", "cork_env_clone_current"])
prop("C33", "An execution specification runs exactly the program described",
 "Running an execution specification changes to its directory, installs its environment and executes its program with exactly its parameters in order, each step only if specified; a failing step is reported and leaves the specification usable.",
 ["fault_sequences", "inputs"], "every specification and outcome of the system calls",
 "Running replaces the process, so tests only see the successful path through subprocesses.",
 ["src/libcork/posix/exec.c"], [("exec sequence", "src/libcork/posix/exec.c")], ["cork_exec_run", "cork_exec_add_param"])
prop("C34", "Subprocess output is delivered completely and exit codes are returned",
 "Running a subprocess delivers all it writes to standard output and error to their consumers in order followed by end of file, and returns its exit code; however reads are split or delayed, no descriptor is leaked and every child is waited for, and failures to start are reported.",
 ["schedules", "fault_sequences"], "every interleaving of output, closing and exit, every failing system call",
 "The tests run a few quick commands; short or delayed reads and system call failures do not occur.",
 ["src/libcork/posix/subprocess.c"], [("non-blocking drain loop", "src/libcork/posix/subprocess.c")], ["cork_subprocess_start", "cork_subprocess_drain", "cork_subprocess_wait"])
prop("C35", "Cleanup functions run once, in priority order, at exit",
 "At exit every registered cleanup function runs exactly once, in ascending priority, and in order of registration among equal priorities, whatever the order of registration.",
 ["histories"], "every sequence of registrations and priorities",
 "The tests register three functions; ordering is over all sequences.",
 ["src/libcork/posix/process.c"], [("sorted list", "src/libcork/posix/process.c")], ["cork_cleanup_at_exit"])
prop("C36", "Threads run once, identifiers are unique, once means once",
 "Starting a thread runs its body exactly once with its data and joining reports its error; thread ids of live threads differ and are stable within a thread; a once-block is executed by exactly one caller and finished before any caller continues; atomic operations return the old and new values of one indivisible step.",
 ["schedules"], "every interleaving of the threads",
 "The tests join a few threads; races need particular interleavings.",
 ["src/libcork/pthreads/thread.c", "include/libcork/threads/basics.h", "include/libcork/threads/atomics.h"], [("compare-and-swap once, id counter", "include/libcork/threads/basics.h")], ["cork_thread_start", "cork_once", "cork_current_thread_get_id"])
prop("C37", "The command line reaches exactly the command it names",
 "For any tree of commands the command run is the one the leading arguments name, its handler sees exactly the remaining arguments, option handling consumes exactly what each command's parser reports, and an unknown or missing subcommand, or a help request, prints help instead of running anything.",
 ["inputs", "programs"], "every argument vector and command tree",
 "The tests run a few shell commands.",
 ["src/libcork/cli/commands.c"], [("recursive dispatch", "src/libcork/cli/commands.c")], ["cork_command_main"])

NA = {}

def main():
    import spec
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] in spec.SPECS:
            S = spec.SPECS[p["id"]]
            checks.append(dict(property=p["id"],
                quick_cmd="python3 tools/vp.py %s --tier quick" % p["id"],
                thorough_cmd="python3 tools/vp.py %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=S.get("technique", "bounded symbolic execution of the C sources to SAT/SMT (CBMC), counterexamples replayed natively"),
                level=S.get("level", "model_checking"),
                level_note=S.get("note", "Solver verdict for every input within the bounds listed per harness in the evidence; unwinding assertions on; "
                    "trusts CBMC's C semantics and memory model (x86_64) and the environment models named in DESIGN.md; nothing is claimed outside the bounds.")))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in P if p["id"] not in spec.SPECS]
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
             notes="Solver-based checking of the real code with CBMC; see DESIGN.md. No hooks are needed in /repo.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
