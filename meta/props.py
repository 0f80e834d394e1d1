PROPS = []


def P(id, title, statement, over, forall, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over.split(), forall=forall, why=why, files=files.split(),
             mech=mech)
    if na:
        d["na"] = na
    else:
        d["technique"] = technique
        d["note"] = note
    PROPS.append(d)


AI = "Over-approximating analysis of the compiled source: for the entry states described, every path is covered " \
     "(loops up to the stated unrolling), with integers unbounded in the relational domain. Trusts clang's lowering " \
     "and the libc models in sa/models.py."

# ---------------------------------------------------------------- buffer
P("C01", "Buffer operations never touch memory outside the buffer",
  "No sequence of buffer calls, with any offsets, lengths, values and limits an application or a peer can supply, makes "
  "the library read or write outside the buffer's storage or the caller's arguments. After every call the read position "
  "does not exceed the write position, and the write position does not exceed the capacity backed by storage.",
  "inputs histories fault_sequences", "every valid buffer state (owned, referenced, empty, in error), every 64-bit "
  "offset/length/value, every allocation failing or not",
  "Tests use a few dozen sizes; offsets near 2^32/2^64, referenced storage and failing allocations combine into states "
  "no test samples.", "buffer/sc_buf.c buffer/sc_buf.h",
  [("sc_buf_reserve / range checks in every peek, set, get, put", "buffer/sc_buf.c"),
   ("sc_buf_wrap / SC_BUF_REF", "buffer/sc_buf.h")],
  "abstract interpretation of LLVM IR (symbolic regions, linear inequalities), inductive buffer invariant", AI)
P("C02", "Buffer reads are checked, sticky on failure and consume what they return",
  "A read consumes exactly the bytes it returns and leaves everything else unchanged when enough data is present; "
  "otherwise it consumes nothing, returns the documented failure value and marks the buffer as corrupt. Once marked, every "
  "later typed read fails the same way until the mark is cleared, and peeks never change the buffer. A string is only handed out when its "
  "terminator follows it inside the data. Sizes, positions, "
  "addresses and validity are reported as they are, and a position can be moved to any valid place and nowhere else.",
  "inputs histories", "every buffer state, requested length and read function",
  "The pairs (remaining bytes, requested length, error mark) are unbounded; tests try one or two per function.",
  "buffer/sc_buf.c", [("sc_buf_get_*/peek_*", "buffer/sc_buf.c")],
  "abstract interpretation with relational postconditions", AI)
P("C03", "Buffer wire format: little-endian, length-prefixed, and read back unchanged",
  "Integers of every width are stored little-endian at the write position and read back bit for bit; strings, blobs and "
  "text carry the documented length prefix and terminator followed by exactly the caller's bytes, and an absent string is "
  "encoded and decoded as absent. Appended text replaces the terminator of the text before it. Writes in place change only "
  "their own bytes, a write fails only for lack of space or memory, and the length helpers announce what writing takes.",
  "inputs", "every value of every width, every string or blob of any length and content, every position",
  "2^64 values and arbitrary lengths; tests write a handful.", "buffer/sc_buf.c",
  [("sc_buf_put_*/set_*/get_*/peek_*", "buffer/sc_buf.c")],
  "bit-level value provenance in abstract interpretation", AI)
P("C04", "Buffer growth obeys the limit, keeps contents and never frees borrowed storage",
  "A buffer never grows beyond its configured limit and never reallocates or frees storage it only references; growth, "
  "compaction and shrinking keep the unread bytes in order. Growth that the limit and the memory allow succeeds. When growth is refused or memory runs out the buffer is marked, "
  "its contents survive, and nothing is leaked or freed twice.",
  "inputs fault_sequences histories", "every capacity, limit and requested size; every allocation failing or not",
  "Allocation failure and limits are crossed with owned/referenced storage only in analysis; tests cover few.",
  "buffer/sc_buf.c", [("sc_buf_reserve, sc_buf_shrink, sc_buf_compact, sc_buf_move, sc_buf_term", "buffer/sc_buf.c")],
  "ownership typestate plus relational postconditions", AI)

# ---------------------------------------------------------------- string
P("C05", "Every length-prefixed string handed out is well formed",
  "For every input, the string functions stay inside their arguments and the strings they create, and every string returned "
  "or left behind has its stored length equal to its contents, storage for all of it and a terminating NUL. Requests whose "
  "length cannot be represented are refused.",
  "inputs fault_sequences", "strings of any length and content, every allocation failing or not",
  "Lengths up to 2^32 and beyond, embedded NULs and failing allocations are outside what tests sample.",
  "string/sc_str.c", [("length header before the characters", "string/sc_str.c")],
  "abstract interpretation with string-length facts", AI + " Token and replace loops: 2 (quick) / 4 (thorough) rounds.")
P("C06", "A failed string operation leaves the held string intact and leaks nothing",
  "When a string update fails for any reason the caller still holds the old string, unchanged and valid; when it succeeds "
  "the old string is released exactly once. No path leaks or double-frees an intermediate string.",
  "inputs fault_sequences", "every input and every allocation failing or not",
  "Needs every allocation failure crossed with every input; tests inject few.", "string/sc_str.c",
  [("sc_str_set*, append, trim, substring, replace", "string/sc_str.c")],
  "typestate of allocations over all exits", AI)
P("C07", "String operations produce exactly the documented contents",
  "Copying, formatting, appending, trimming, substring and replacing produce exactly the characters their documentation "
  "describes, at every position, for every input; tokenising visits the pieces in order and restores the string when finished "
  "as documented.",
  "inputs", "every string, index range, pattern and replacement", "Contents and lengths are unbounded.",
  "string/sc_str.c", [("sc_str_*", "string/sc_str.c")],
  "value provenance at an arbitrary index", AI)

# ---------------------------------------------------------------- containers
P("C08", "List links stay a consistent ring under every operation",
  "After any sequence of list operations, walking forward and backward visits exactly the same elements in mirrored order, "
  "in the order the operations define; removed elements are self-linked, adding an element that is linked elsewhere moves it, "
  "and iteration visits every element once even when the visited element is removed.",
  "histories inputs", "every list shape and element position",
  "Operation sequences are unbounded; tests follow a few fixed ones.", "linked-list/sc_list.c linked-list/sc_list.h",
  [("sc_list_*", "linked-list/sc_list.c")], "shape analysis over all alias patterns",
  "Every operation reads at most four nodes, so rings of up to four elements plus the head exhibit all alias patterns. " + AI)
P("C09", "Dynamic array keeps its elements and stays inside its storage",
  "For any element type, size and index the documentation allows, array operations stay inside the storage, keep every other "
  "element in place (or moved as documented) and keep size within capacity. A failed growth is reported, changes nothing and "
  "leaks nothing; a maximum configured at build time (SC_ARRAY_MAX) is never exceeded.",
  "inputs histories fault_sequences", "every size, capacity and index; allocation failing or not; several element types",
  "Sizes and failing allocations are unbounded; the tests use small arrays.", "array/sc_array.h",
  [("sc_array_* macros", "array/sc_array.h")], "abstract interpretation of macro instantiations", AI)
P("C10", "Double-ended queue keeps order across wrap-around and growth",
  "For every ring position and capacity, adding and removing at either end keeps the other elements in order, indexing and "
  "iteration see them in that order, and growth preserves it; size stays below capacity. A failed growth is reported, changes "
  "nothing and leaks nothing; a maximum configured at build time (SC_QUEUE_MAX) is never exceeded.",
  "histories inputs fault_sequences", "every pair of ring positions, tabulated capacities, allocation failing or not",
  "The number of wrap positions times capacities is unbounded; tests hit few.", "queue/sc_queue.h",
  [("sc_queue_* macros, sc_queue_expand", "queue/sc_queue.h")], "abstract interpretation of macro instantiations",
  "Capacities are enumerated over powers of two (quick: 7, thorough: 2^3..2^58). " + AI)

# ---------------------------------------------------------------- heap, map
P("C11", "Heap pops in key order and loses no element",
  "After any sequence of adds and pops the heap yields its elements in non-decreasing key order, each exactly once with the "
  "data it was added with; peek shows what pop would return. A failed growth is reported, changes nothing and leaks nothing; "
  "a maximum configured at build time (SC_HEAP_MAX) is never exceeded.",
  "histories inputs fault_sequences", "every heap shape up to the bound, every order of keys including ties, allocation "
  "failing or not", "Key orders and heap shapes grow factorially; tests use a few sequences.", "heap/sc_heap.c heap/sc_heap.h",
  [("sc_heap_add sift-up, sc_heap_pop sift-down", "heap/sc_heap.c")],
  "abstract interpretation with a heap-order invariant over symbolic keys",
  "Heaps of up to 8 (quick) or 18 (thorough) elements, all key orders at once. " + AI)
P("C12", "Map lookups find exactly the stored keys",
  "After any sequence of puts, gets and deletions, a lookup returns the value last stored for that key and reports found if "
  "and only if the key is present; put and delete return the previous value. The zero or absent key works like any other, a "
  "cleared map holds no key, and iteration visits every pair exactly once.",
  "histories inputs", "every arrangement of entries and probe runs up to the bound, every key, value and hash; all map types",
  "Collisions, wrap-around probe runs and backward-shift deletion interact in more ways than tests sample.",
  "map/sc_map.c map/sc_map.h", [("sc_map_get/put/del, linear probing with backward shift", "map/sc_map.c"),
                                ("sc_map_foreach macros", "map/sc_map.h")],
  "abstract interpretation over all occupancy/home-slot shapes with symbolic keys",
  "Tables of 8 slots, up to 3-5 entries and long probe runs in every arrangement. " + AI)
P("C13", "Map growth keeps every entry and failed growth changes nothing",
  "When a map grows it keeps every key with its value, and it never fills up so far that a lookup could not terminate. Any "
  "requested capacity and load factor gives a usable map or a reported failure. If memory runs out the put is reported as "
  "failed, the map is unchanged and nothing leaks, and so is a put that would exceed the maximum configured at build time (SC_MAP_MAX); "
  "the flags of one operation do not leak into the next.",
  "histories inputs fault_sequences", "tables at the load limit, every capacity and load factor argument, allocation failing "
  "or not, all map types", "Rehashing moves keys by unbounded hash bits, and allocation failure is rarely injected in tests.",
  "map/sc_map.c", [("sc_map_remap, sc_map_init, sc_map_clear, sc_map_term", "map/sc_map.c")],
  "abstract interpretation, region ownership", "Representative shapes at the load limit of 8-slot tables. " + AI)

# ---------------------------------------------------------------- uri
P("C14", "URI parsing follows RFC 3986 and never leaves its input",
  "For every input string the parser either refuses it, leaking nothing, or returns one object whose scheme, userinfo, host, "
  "port, path, query and fragment are exactly the parts RFC 3986 assigns, each NUL terminated and inside the object. Delimiters "
  "inside later parts are not mistaken for earlier ones and ports above 65535 are refused. (What becomes of text that follows a port "
  "number directly, as in 'a://b:80c', is left open: the parser is documented as not validating.)",
  "inputs fault_sequences", "every string formed of up to N delimiters with arbitrary text of any length between them; "
  "allocation failing or not", "The grammar is infinite; tests hold a few dozen addresses.", "uri/sc_uri.c uri/sc_uri.h",
  [("sc_uri_create", "uri/sc_uri.c")], "abstract interpretation of strings as delimiter skeletons, RFC 3986 split as oracle",
  "All skeletons with up to the tabulated number of delimiters. " + AI)

# ---------------------------------------------------------------- ini
P("C15", "INI parser reports exactly the entries of its input, line by line",
  "For every text or file, the callback is called once per entry, in order, with the section in force, the trimmed key and value "
  "and the right line number; comments and blank lines are skipped, indented lines continue the previous key. Overlong names and "
  "lines are cut without overrun and without being taken for further lines. A malformed line or a callback that asks to stop ends "
  "parsing at once with that line number, an unreadable file gives -1, and the file is always closed.",
  "inputs fault_sequences", "texts of any combination of the tabulated line forms with arbitrary text in them, lines of any length, "
  "read errors", "Line forms, lengths near the buffer sizes and their sequences combine beyond what tests list.",
  "ini/sc_ini.c ini/sc_ini.h", [("sc_ini_parse, trim_*, file_line, string_line", "ini/sc_ini.c")],
  "abstract interpretation of strings as delimiter skeletons, line grammar as oracle",
  "Tabulated line forms and sequences of up to five lines. " + AI)

# ---------------------------------------------------------------- option
P("C16", "Command line options match exactly, with the value behind '='",
  "An argument matches a short option only as '-' letter, a long one only as '--' with exactly its name; the first matching option's "
  "letter is returned with the value pointing behind '=', or at the end of the argument when there is none. Everything else gives "
  "'?' with a NULL value, nothing outside the argument and the option table is read, and neither is written to.",
  "inputs", "every argument and every table of options with or without names",
  "Prefixes, empty names, missing values and tables without names combine beyond the tested ones.",
  "option/sc_option.c option/sc_option.h", [("sc_option_at", "option/sc_option.c")],
  "abstract interpretation of strings as delimiter skeletons", "Tables of up to 4 options. " + AI)

# ---------------------------------------------------------------- synchronisation
SYS = "Over-approximating analysis of the compiled source with each system call free to fail or be interrupted. Trusts clang's " \
      "lowering and the models in sa/sysm.py. "
P("C17", "The mutex wrapper excludes, and reports what it could not create",
  "After a successful init the mutex is unlocked and lock/unlock act on exactly that mutex, which never admits two holders at once. "
  "A failed init or term returns -1; no attribute or mutex is leaked on any path.",
  "schedules fault_sequences", "every call failing or not", "Tests lock an uncontended mutex; exclusion and the failure exits "
  "concern schedules and faults.", "mutex/sc_mutex.c mutex/sc_mutex.h", [("sc_mutex_*", "mutex/sc_mutex.c")],
  "typestate analysis", SYS)
P("C18", "A signalled condition is never lost, and only delivered once",
  "Whatever the interleaving and spurious wake-ups, wait returns exactly when a signal was raised, hands over the data of that signal, and "
  "consumes it; a signal raised before the wait is not lost. Shared state is only touched with the mutex held, and the mutex is always "
  "released. A failed init releases everything and leaves the object safe to terminate; errors are negative with errno set.",
  "schedules fault_sequences", "every interleaving of signallers and waiters at the mutex, spurious wake-ups, every call failing or not",
  "Lost wake-ups depend on rare interleavings that tests do not force.", "condition/sc_cond.c condition/sc_cond.h",
  [("sc_cond_wait/signal protocol", "condition/sc_cond.c")], "lock-set and typestate analysis with interference", SYS)
P("C19", "Threads are started once, joined once, and failures are reported",
  "start runs exactly the caller's function with the caller's argument in a joinable thread, or returns -1 with a message describing the "
  "error; join waits for that thread once and yields its result. Joining a thread that never started, failed to start or was already joined "
  "does nothing. Attributes never leak and the error text is always a terminated string.",
  "fault_sequences histories", "every sequence init, start, join, term with every call failing or not",
  "Thread creation practically never fails in tests.", "thread/sc_thread.c thread/sc_thread.h",
  [("sc_thread_start/join/term", "thread/sc_thread.c")], "typestate analysis", SYS)
P("C20", "Clock readings convert exactly and a sleep is not cut short by signals",
  "The time functions read the documented clock and convert seconds and nanoseconds without truncation or overflow. A sleep asks for exactly "
  "the requested time, resumes with the remaining time when interrupted, returns 0 only after the whole time and a negative value on error.",
  "inputs fault_sequences", "every clock reading and duration, any number of interruptions",
  "Interruptions and large values do not occur in tests.", "time/sc_time.c time/sc_time.h", [("sc_time_*", "time/sc_time.c")],
  "abstract interpretation with exact linear arithmetic", SYS)
P("C21", "Timers fire exactly once, never early, and not after being cancelled",
  "A timer's callback runs with the caller's argument and the timer's type, data and due time, never before its due time, at most once, and "
  "at the first call after the tick it is due in; none is lost when slots overflow, the wheel wraps, delays exceed a full turn, memory "
  "runs out or callbacks add and cancel timers. Cancelled or cleared timers never fire, and no two pending timers share an id. The returned next timeout never oversleeps a tick. An "
  "add that would exceed the maximum configured at build time (SC_TIMER_MAX) is refused and disturbs nothing.",
  "histories inputs fault_sequences", "every delay and elapsed time, call sequences up to the tabulated length, allocation failing or not",
  "Wheel position, wrap-around, overflow and re-entrancy combine beyond what tests sample.", "timer/sc_timer.c timer/sc_timer.h",
  [("sc_timer_add, expand, sc_timer_timeout, sc_timer_cancel", "timer/sc_timer.c")],
  "abstract interpretation of call sequences with symbolic time", "Tabulated wheel positions (all 16 in thorough) and sequences. " + AI)

# ---------------------------------------------------------------- logger
P("C22", "The logger's state is only touched under its mutex and its file never leaks",
  "Every access to the shared logger state (level, sinks, file, names, size) happens with the mutex held, the mutex is released on every exit, "
  "and header and message of a line are written in one critical section. The recorded log file is always either absent or the one open "
  "file: none is leaked, closed twice or written after being closed, whatever call fails. Names stay terminated inside their arrays.",
  "schedules fault_sequences", "every interleaving at the mutex, every sequence of log, rotate, reconfigure and terminate, every call failing or not",
  "Races and failing calls in the middle of rotation are not forced by tests.", "logger/sc_log.c logger/sc_log.h",
  [("sc_log_log, sc_log_file, sc_log_set_file, sc_log_term", "logger/sc_log.c")], "lock-set and typestate analysis", SYS)
P("C23", "Each log message reaches exactly the enabled sinks, once, and files rotate",
  "A message at or above the level is written once to each enabled sink (stderr for errors, else stdout; the file; the callback), header first, "
  "with the caller's format and fresh arguments for each; one below the level goes nowhere. One failing sink does not starve the others and "
  "the result is 0 only when all succeeded. A file past the size limit is closed, renamed and replaced, counting every byte written. Setters "
  "store what they are given and leave the other settings alone, accept exactly the five level names in any case, and report errors with a negative value and errno. "
  "The macros sc_log_debug, _info, _warn and _error log at their own level with the caller's format and arguments in order, preceded by file name and line when so built.",
  "inputs histories fault_sequences", "every level, threshold, set of sinks, file size and failing call",
  "Combinations of sinks, sizes and failures; tests check counts of a few.", "logger/sc_log.c logger/sc_log.h",
  [("sc_log_log, sc_log_stdout, sc_log_file, sc_log_set_level", "logger/sc_log.c"), ("sc_log_debug, sc_log_info, sc_log_warn, sc_log_error", "logger/sc_log.h")], "abstract interpretation with event sequences", SYS)

# ---------------------------------------------------------------- mmap
P("C24", "A mapping covers exactly what was asked for and is released once",
  "A successful init holds one descriptor and one mapping of exactly the file, offset, length, protection and flags asked for (to the end of "
  "the file for length 0), grown beforehand when writable; a failed one holds nothing. term closes and unmaps once and is harmless when "
  "repeated. msync, mlock and munlock cover every byte of the given range and no page outside it. Errors are negative, and the error text is "
  "terminated and describes the failing call; an interrupted allocation is retried.",
  "inputs fault_sequences", "every offset, length, protection and page size tabulated, every call failing, interrupted or not",
  "System calls do not fail in tests at each point; unaligned ranges go unnoticed since pages are written back anyway.",
  "memory-map/sc_mmap.c memory-map/sc_mmap.h", [("sc_mmap_init, sc_mmap_term, sc_mmap_msync", "memory-map/sc_mmap.c")],
  "typestate and exact linear arithmetic", SYS)

# ---------------------------------------------------------------- socket
P("C25", "Sockets neither leak nor double-close descriptors or address lists",
  "Whatever system call fails, sc_sock_listen, connect, accept and notify_systemd close every descriptor they opened unless they return "
  "with it recorded in the socket, and then it is the only one; they release each address list once. A failed call leaves the socket "
  "without descriptor; sc_sock_term closes once and is harmless when repeated. After a failure the error text is terminated inside its "
  "array and names an error that occurred in that call.",
  "fault_sequences inputs", "every sequence of failing calls, address lists with several families, blocking or not, with or without source address",
  "Which call fails on which address of the list is a large space; tests force a handful of single failures.", "socket/sc_sock.c socket/sc_sock.h",
  [("sc_sock_listen, sc_sock_connect, sc_sock_accept, sc_sock_term", "socket/sc_sock.c")], "typestate analysis of descriptors and address lists", SYS)
P("C26", "Socket operations ask the system for exactly what the caller asked for",
  "Sockets get the blocking mode, family, address and options asked for before they bind or connect; connect tries addresses of the socket's "
  "family first, each once in order, and reports a connection in progress as EAGAIN; send and recv pass buffer, length and flags on, repeat "
  "interrupted calls only, return the byte count, and report would-block, end of stream and errors with a negative value and errno; timeouts "
  "are exact to the millisecond; address texts are terminated in the buffer and show the right end. Names that do not fit are refused. "
  "The systemd notification goes to exactly the path or abstract name in the environment, whole. Startup and cleanup succeed where there is "
  "nothing to do.",
  "inputs fault_sequences", "every length, timeout, path, mode, address list, result and errno of each call",
  "Lost sub-second timeouts, cut paths or wrong modes on rare paths pass loopback tests.", "socket/sc_sock.c socket/sc_sock.h",
  [("sc_sock_connect, sc_sock_send, sc_sock_recv, sc_sock_set_rcvtimeo, sc_sock_local_str", "socket/sc_sock.c")],
  "abstract interpretation with event sequences", SYS)
P("C27", "Poll masks always match the kernel; poller and pipe own their resources",
  "After every sc_sock_poll_add/del the mask stored in the descriptor equals what the kernel watches, also when the kernel refuses; it is up to "
  "date before the kernel is told; the kernel is asked to add, modify or remove accordingly, with exactly the events of the new mask and the "
  "caller's data. Reported events map to read/write, a closed peer to both. Interrupted waits are repeated; waiting after term is refused. "
  "Poller and pipe hold their descriptors and memory until term, which releases them once, also when closing fails. A failure leaves a terminated, non-empty error text.",
  "histories inputs fault_sequences", "every registered mask x requested mask x answer, every event word, every failing call",
  "64 mask transitions times failures, and races with a poller thread, are not enumerated by tests.", "socket/sc_sock.c socket/sc_sock.h",
  [("sc_sock_poll_add, sc_sock_poll_del, sc_sock_poll_wait, sc_sock_pipe_init", "socket/sc_sock.c")],
  "exhaustive tabulation and typestate analysis", SYS)

# ---------------------------------------------------------------- signal
P("C28", "The signal-safe formatter is exact, bounded and refuses what it does not know",
  "sc_signal_vsnprintf writes exactly the text the format denotes - %s, %d, %u, %ld, %lu, %lld, %llu, %p and %% - for every argument value, "
  "taking each argument once with its own type, cut to the buffer and terminated inside it, writing nothing for size 0, and returns the number "
  "of characters written. An unsupported conversion or a format that ends inside one gives -1 and nothing past the format is read. "
  "sc_signal_snprintf and sc_signal_log hand their arguments on; the log writes exactly the text, and nothing after a failure.",
  "inputs", "every value of every integer type and pointer, strings and buffers of any size, any unsupported character",
  "Extreme values, exact-fit buffers and broken formats; tests print a dozen numbers.", "signal/sc_signal.c signal/sc_signal.h",
  [("sc_signal_vsnprintf, sc_signal_snprintf, sc_signal_log", "signal/sc_signal.c")], "abstract interpretation with exact linear arithmetic", AI)
P("C29", "Signal handlers are async-signal-safe and shut down or die as documented",
  "Everything reachable from an installed handler is async-signal-safe. The shutdown handler keeps errno, reports to the log descriptor "
  "(else stdout), remembers the request and writes one byte to the shutdown descriptor; a second signal or a failed write ends the process at "
  "once with a failure code, and without a descriptor it exits normally. The crash handler reports to the log descriptor (else stderr), restores "
  "the default action and raises the same signal again. sc_signal_init installs them for the documented signals with matching flags and "
  "returns -1 when any call fails.",
  "schedules fault_sequences inputs", "a signal at any point, every signal number, descriptors set or not, every call failing",
  "Unsafe calls deadlock only when a signal lands in the wrong place; tests cannot time that.", "signal/sc_signal.c signal/sc_signal.h",
  [("sc_signal_init and the handlers it installs", "signal/sc_signal.c")], "call-graph effect analysis and event sequences", SYS)

# ---------------------------------------------------------------- sc
P("C30", "Size and power-of-two helpers are right for every value",
  "sc_is_pow2 is true exactly for powers of two; sc_to_pow2 gives the smallest power of two not below its argument (up to 2^63). "
  "sc_bytes_to_size shows the size to two decimals in a unit that leaves a readable number, or returns NULL when it does not fit. "
  "sc_size_to_bytes multiplies exactly by the unit (either case, with or without b) and returns -1 for anything malformed or out of range, "
  "without overflow; a negative size never gives a positive result. sc_rand_read writes exactly the bytes asked for. "
  "sc_max and sc_min give the larger and the smaller of two values of one type.",
  "inputs", "every 64-bit value, every text", "Boundary values of each unit and power; tests try a few.", "sc/sc.c sc/sc.h",
  [("sc_to_pow2, sc_is_pow2, sc_bytes_to_size, sc_size_to_bytes, sc_rand_read", "sc/sc.c")],
  "abstract interpretation with exact linear arithmetic and bit provenance", AI)

# ---------------------------------------------------------------- crc32
P("C31", "sc_crc32 is CRC-32C for every buffer, however it lies or is split",
  "After sc_crc32_init, sc_crc32(crc, buf, len) returns the CRC-32C (Castagnoli, reflected, inverted in and out) of the len bytes continued from crc, "
  "for every content, length, address and starting value, so a buffer checksummed in pieces gives the checksum of the whole, and the software, "
  "hardware and big-endian builds agree. It reads only those bytes, makes no misaligned load, writes no memory that outlives the call, and calling "
  "sc_crc32_init again changes nothing.",
  "inputs", "every content, length, alignment, starting value; x86 and AArch64 hardware paths, software path of either byte order",
  "The length classes and alignments of four builds; tests fix a few short strings in one.", "crc32/sc_crc32.c crc32/sc_crc32.h",
  [("sc_crc32 and sc_crc32_init", "crc32/sc_crc32.c")], "abstract interpretation over GF(2)-affine forms with loop induction",
  "Affine forms over GF(2) on the current IR of four builds; nothing run.")

# ---------------------------------------------------------------- perf
P("C32", "sc_perf reports what the kernel counted between start and end, and nothing else",
  "A session opens each event once, for the calling process and its threads, counting only while started: sc_perf_start switches the counters on, "
  "sc_perf_pause and sc_perf_end switch them off. sc_perf_end reads each counter once, prints each event once under its own name with its value "
  "scaled by time enabled over time running and the share of time it ran (zero, not a division by zero, when it never ran), prints the seconds "
  "that passed between each start and its pause or end, and closes every counter; a later session starts from nothing. Starting while started and "
  "pausing while paused change nothing. When the system refuses anything, or there is no session, the process is ended instead of carrying on.",
  "histories fault_sequences inputs", "every order of start, pause and end of up to five calls, every value and share of time, every system call failing",
  "The repository has no test of it: counters need privileges and hardware, multiplexing needs contention.", "perf/sc_perf.c perf/sc_perf.h",
  [("sc_perf_start, sc_perf_pause, sc_perf_end", "perf/sc_perf.c")],
  "abstract interpretation with a model of the kernel interface; polynomial ratios for the printed values", SYS)

# ---------------------------------------------------------------- macros
P("C33", "The header macros take the caller's expressions as the caller wrote them",
  "A macro of the public headers can be used like a function: an argument may be any expression of its type and keeps its value whatever the "
  "caller's variables are called (names beginning with an underscore are the library's), the result can stand in any expression, and the element, "
  "index and printed-value arguments of the array, queue, log and string macros are evaluated once when they are used, never twice. A statement or "
  "loop macro is one statement: it works as the body of an unbraced if, else or while, and twice in one block. Every header can be included by itself, twice and after "
  "the others, and defines nothing for the linker.",
  "inputs", "every macro of the headers; every name the macro declares, every form of expression by precedence, asserts on and off",
  "A test uses a few names and plain variables; the caller's names and expressions are unbounded.",
  "array/sc_array.h queue/sc_queue.h linked-list/sc_list.h map/sc_map.h logger/sc_log.h string/sc_str.h sc/sc.h",
  [("sc_array_*, sc_queue_*, sc_list_*, sc_map_* macros", "array/sc_array.h"), ("sc_str_append_fmt", "string/sc_str.h"),
   ("sc_log_*", "logger/sc_log.h"), ("sc_max, sc_min", "sc/sc.h")],
  "renaming and bracketing invariance of expanded macros, decided on IR; path counting of argument calls",
  "IR of the expansions compared; nothing run.")

# ---------------------------------------------------------------- allocators
P("C34", "Storage comes from the configured allocation functions and goes back to them",
  "Built with a configuration header (SC_HAVE_CONFIG_H), a module requests and releases storage only through the allocation functions configured for "
  "it (sc_xxx_malloc, sc_xxx_calloc, sc_xxx_realloc, sc_xxx_free); it never calls an allocation function of the C library, nor one that returns "
  "storage to be freed, nor another module's. The modules that have no such functions allocate nothing.",
  "inputs fault_sequences", "every function of every module, on every path", "The tests run with the default functions, where malloc and sc_xxx_malloc are the same.",
  "array/sc_array.h queue/sc_queue.h buffer/sc_buf.c heap/sc_heap.c map/sc_map.c socket/sc_sock.c string/sc_str.c timer/sc_timer.c uri/sc_uri.c",
  [("sc_xxx_malloc, sc_xxx_calloc, sc_xxx_realloc, sc_xxx_free", "string/sc_str.h")],
  "effect analysis: functions referred to by each function's IR in the configured build", "IR of configured builds; nothing run.")

# ---------------------------------------------------------------- shared state
P("C35", "Threads that use different objects do not meet inside the library",
  "Array, queue, list, heap, map, buffer, string, uri, ini, option, timer, time, mmap, mutex, condition, thread, socket and the helpers of sc.h keep "
  "no writable data of their own besides thread-local data: all state is in the objects the caller passes, so threads working on different objects "
  "need no locks. No module uses a library function whose state is shared by all threads (strtok, localtime, rand, gethostbyname, inet_ntoa, ...).",
  "schedules histories", "every static definition, every function, on every path and under every schedule",
  "A race between two objects' users shows under particular schedules only; the tests use one thread nearly everywhere.",
  "array/sc_array.h queue/sc_queue.h linked-list/sc_list.c heap/sc_heap.c map/sc_map.c buffer/sc_buf.c string/sc_str.c uri/sc_uri.c ini/sc_ini.c option/sc_option.c "
  "timer/sc_timer.c time/sc_time.c memory-map/sc_mmap.c mutex/sc_mutex.c condition/sc_cond.c thread/sc_thread.c socket/sc_sock.c sc/sc.c logger/sc_log.c",
  [("state in the caller's objects", "map/sc_map.c"), ("thread-local error text", "socket/sc_sock.c")],
  "escape and write analysis of static storage; effect analysis of library calls", "IR of each module; nothing run.")

# ---------------------------------------------------------------- random generator
P("C36", "The random generator is RC4, seeded by every byte of the seed",
  "sc_rand_init starts from the table of all 256 byte values and shuffles it with every byte of the seed as RC4's key schedule does, so that every "
  "byte value can come; it leaves the seed alone and starts reading at the first entry. Each byte sc_rand_read gives is RC4's next one for the state; "
  "the table stays a permutation and the state carries over, so that reading in pieces gives what one read of the whole gives. A read of zero or fewer "
  "bytes leaves the generator alone.",
  "inputs histories", "every seed, every state of the table and the counters, reads of any length split in any way",
  "The tests compare two generators with each other; neither exact values, nor the values that never come, nor rare states (equal counters, wrap) show.",
  "sc/sc.c sc/sc.h", [("sc_rand_init, sc_rand_read", "sc/sc.c")], "value numbering over byte-table terms", "IR evaluated over terms; nothing run.")
