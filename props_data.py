# (id, title, statement, over, quantifier text, why tests cannot, files, mechanism, note)
P = []
def p(*a): P.append(a)
SEQ = "Exhaustive over the named bounds on the compiled library itself (AddressSanitizer build); nothing is sampled. Trusts gcc, ASan and the reference model in the harness."
CX = "Every schedule within the preemption bound is executed on the real code under sequential consistency; weaker memory orders and schedules needing more preemptions are outside. Trusts gcc's access instrumentation and the modelled pthread/clock calls."

p("R01", "Byte ring behaves as a bounded first-in first-out buffer",
  "For every history of operations a byte ring created with some size accepts data up to its capacity and returns exactly the accepted bytes in order. A write or read transfers min(requested, possible) bytes, peek and discard agree with read, the fill queries agree with the contents, and nothing outside the ring's memory is touched.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the depth bound, all sizes and offsets around the wrap point",
  "Demos run one fixed pattern of writes and reads and do not look at wrapped positions, refused transfers or the memory around the buffer.",
  ["src/ring/ringbuffer.c", "inc/ring/ringbuffer.h"], "free-running 32-bit positions masked by a power-of-two size; two-part copies at the wrap", SEQ)
p("R03", "Rings and queues are safe for one producer and one consumer without locks",
  "While one thread only writes and another only reads the same ring or queue, everything accepted is delivered exactly once, in order and unmodified, and nothing else is delivered. What a thread was told it can transfer, it can transfer; a message is never handed out before it is complete.",
  ["schedules", "histories"], "all interleavings of the unsynchronised accesses up to the preemption bound, all transfer sizes and start offsets listed",
  "A demo thread pair runs on whatever schedule the machine happens to pick and never steers the few-instruction windows in which data and positions are published.",
  ["src/ring/ringbuffer.c", "src/ring/ring_buf.c", "src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"], "the position is published after the data is copied, and each side only writes its own position", CX)
p("H01", "Queued messages are handled exactly once, in order and intact",
  "Every message accepted by a message-queue handler is passed to its callback exactly once, in the order of acceptance and with unchanged header and payload, whatever its size; refused messages never are. Accepted messages are handled without any further action of the sender, and callbacks never overlap.",
  ["schedules", "histories", "inputs"], "all interleavings of sender(s) and handler thread up to the preemption bound, message-size mixes, full queues",
  "A lost wake-up or a message read while it is being written needs a particular interleaving; the demo pushes messages and only prints them.",
  ["src/ring/msg_queue_handler.c", "src/ring/msg_queue.c"], "push then post; the thread waits on a semaphore and grows its receive buffer", CX)
p("H02", "A message-queue handler starts, stops and is destroyed cleanly",
  "A handler reports 'ready' once before its first message and 'about to stop' once after its last; a callback that asks to stop, or missing memory, ends it and later messages are refused. Destroying it at any moment returns only when its thread has ended, and leaves no callback, memory or lock behind; if creation cannot get memory or a thread it fails without side effects.",
  ["schedules", "fault_sequences"], "destruction and stop requests at every scheduling point up to the preemption bound; every allocation or thread-creation failure",
  "Demos destroy an idle handler once and inject no failure.",
  ["src/ring/msg_queue_handler.c", "src/thread/portable_thread_posix.c"], "exit flag, semaphore post, join, then release", CX)
p("H03", "Fixed-size message handler delivers in order and honours clear",
  "Every accepted message is handled exactly once, in order and intact, unless a clear or the end of the handler comes first; status callbacks, stopping, destruction and failing creation behave as for the other handler. After a clear returns no message pushed earlier is started apart from the one being handed over at that moment, and every message pushed later is handled.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of sender and handler thread up to the preemption bound, clears and destruction at every point, every creation failure",
  "The demo never clears while messages are in flight and never checks which messages arrive.",
  ["src/ring/fixed_msg_queue_handler.c", "src/ring/fixed_msg_queue.c"], "a token per message compared with the oldest valid token", CX)
p("T01", "Every job given to the thread pool runs exactly once",
  "Each job the pool accepts is run exactly once with its own argument, also when several threads or running jobs submit work; a refused job never runs. A pool with one thread runs jobs in submission order, and no pool runs more jobs at once than it has threads.",
  ["schedules", "fault_sequences"], "all interleavings of submitters and workers up to the preemption bound; allocation failure of each submission",
  "Lost wake-ups and queue corruption appear only in particular interleavings of submitters and workers.",
  ["src/thread/thpool.c"], "job list under a lock, binary semaphore re-posted while jobs remain", CX)
p("T02", "Waiting on the thread pool returns exactly when all work is done",
  "A wait returns only after every job accepted before it, and every job those jobs submit, has finished; it always returns then, for every waiting thread and with spurious wake-ups too. The reported number of working threads stays between zero and the pool size.",
  ["schedules"], "all interleavings of waiters, submitters and workers up to the preemption bound, with spurious wake-ups",
  "A wait that returns early or never needs a worker to be stopped between two particular steps.",
  ["src/thread/thpool.c"], "queue length and working count re-checked under the count lock, idle condition", CX)
p("T03", "Creating, pausing and destroying a thread pool is safe at any time",
  "Destroying a pool lets running jobs finish, starts none afterwards, returns only when no worker uses the pool any more and releases all of its memory, whether or not jobs are pending. If memory or a thread cannot be had creation fails cleanly, and work added during a pause runs after the resume.",
  ["schedules", "fault_sequences"], "destruction at every scheduling point up to the preemption bound, before and after the grace period; every allocation and thread-creation failure",
  "The demos destroy idle pools on one schedule and inject no failure.",
  ["src/thread/thpool.c"], "keep-alive flag, broadcast polling, count of live threads", CX)
p("R02", "All-or-nothing ring buffer never splits or loses a record",
  "For every history of operations the all-or-nothing ring either accepts a whole write or changes nothing, and either delivers a whole read or changes nothing. Accepted bytes come back once, in order and unmodified, and the fill queries always agree with the contents.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the depth bound, all small sizes, lengths and start offsets",
  "The demos write and read one pattern; wrapped positions, exactly full and refused transfers are not met.",
  ["src/ring/ring_buf.c", "inc/ring/ring_buf.h"], "read and write positions with one byte kept free", SEQ)
p("R04", "Auto-cover buffer keeps the newest data and says what was overwritten",
  "For every history a read at a position returns exactly the bytes that the last writes left there, or reports that the data is not there yet or is already overwritten, and never returns older or foreign bytes as if they were the requested ones. Writing never fails for lack of space, wrapped writes are complete, and with lock callbacks this holds for concurrent readers and writers.",
  ["histories", "inputs", "schedules"], "all operation sequences up to the depth bound with wrap; all interleavings of a writer and readers up to the preemption bound",
  "The demo writes one pattern from one thread and never reads while the buffer is being covered.",
  ["src/ring/autocover_buffer.c", "inc/ring/autocover_buffer.h"], "write position and cover state updated under the lock callbacks, two-part copies", SEQ + " " + CX)
p("R05", "Message queue keeps message boundaries",
  "For every history the variable-size message queue delivers each accepted message once, in order, with its exact length and contents. A message that does not fit the free space, a pop into a buffer that is too small, an empty queue and missing handles are reported as the documented errors and change nothing.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over message sizes around the queue size",
  "The demo pushes a few equal messages and never fills the queue or offers a short buffer.",
  ["src/ring/msg_queue.c", "inc/ring/msg_queue.h"], "length header and payload written as one record into a ring", SEQ)
p("R06", "Fixed-size message queue is a bounded first-in first-out queue",
  "For every history the fixed-size queue accepts messages exactly while it holds fewer than the number it was created for and returns them once, in order and unmodified. Full and empty queues refuse without changing anything, and count and clear agree with the contents.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the depth bound, message sizes and capacities listed",
  "No test drives the queue through full, empty and cleared states at every wrap position.",
  ["src/ring/fixed_msg_queue.c", "inc/ring/fixed_msg_queue.h"], "records of fixed size in a ring buffer", SEQ)
p("D01", "Hash map is a dictionary for every history and hash function",
  "After any sequence of operations the map holds exactly the last value put for each key and nothing else; put returns the replaced value, remove and the lookups report presence exactly, and foreach visits each entry once until told to stop, even when its callback removes the entry. Owned keys and values are freed exactly once, when replaced, removed, cleared or destroyed, growth loses nothing, and after failed allocations the map is still right.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to the depth bound over colliding keys, five hash functions, every allocation failing",
  "Tests insert a few distinct keys; long collision chains, growth and allocation failures in the middle are not met.",
  ["src/data/hashmap.c", "src/data/hash_functions.c"], "bucket chains, growth at 75 percent load", SEQ)
p("D02", "Hash map with lock callbacks is linearizable",
  "With lock callbacks every history of concurrent map operations has results that some order of whole operations explains, respecting the real-time order. The callbacks are called in pairs on every path, and no memory is touched outside them that another thread changes.",
  ["schedules", "histories"], "all interleavings up to the preemption bound of two or three threads with one or two operations each on two colliding keys",
  "A lost update or torn chain needs two threads stopped inside the same bucket; no test uses the map from two threads.",
  ["src/data/hashmap.c"], "lock and unlock callbacks around each public operation", CX)
p("D03", "Linked list is a sequence for every history",
  "After any sequence of operations the list holds exactly the elements of the model sequence, in order, and length, front, back, node walk and contains agree with it. Elements are freed once by the free callback where the list owns them, a failed insertion changes nothing, and foreach visits each element once in order even when its callback removes the visited element.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to the depth bound over three elements with duplicates, every allocation failing",
  "The test appends and removes a few elements and prints them; it does not remove tails, duplicates or during iteration.",
  ["src/data/list.c", "inc/data/list.h"], "singly linked nodes with head and tail pointers", SEQ)
p("D04", "Array is a growing sequence of fixed-size elements",
  "After any sequence of appends the array holds exactly the appended elements in order and contiguously, whatever element size and initial capacity, across every growth. An append that cannot get memory fails and changes nothing.",
  ["histories", "inputs", "fault_sequences"], "element sizes 1 to 32, lengths across several growth steps, all appends and failures up to the depth bound",
  "No test grows an array past its internal storage or fails an allocation.",
  ["src/data/array.c", "inc/data/array.h"], "inline storage first, then doubling reallocation", SEQ)
p("D05", "Base64 encoding and decoding are inverse and never overrun",
  "For every byte string, encoding gives the standard base64 text with padding, and decoding gives the bytes back, using no more memory than the announced buffer sizes. Decoding any other text neither reads beyond its terminator nor writes beyond the announced size.",
  ["inputs"], "all strings of up to two bytes, all classes of three bytes, all lengths up to the bound, and all texts over an alphabet of valid and invalid characters up to the bound",
  "The test encodes one sentence; most length and padding classes and malformed text are not met.",
  ["src/data/base64.c", "inc/data/base64.h"], "table-driven three-to-four conversion", SEQ)
p("D06", "URL encoding and decoding are inverse and respect the buffer",
  "For every text, encoding escapes exactly the characters that need it and decoding gives the text back. A buffer that is too small, malformed escapes and empty input are handled without touching memory outside the given sizes.",
  ["inputs"], "all texts over an alphabet of plain, reserved, percent and non-ASCII bytes up to the length bound, every buffer size",
  "The test encodes one URL with an ample buffer.",
  ["src/net/url_encoder_decoder.c", "inc/net/url_encoder_decoder.h"], "character table and percent escapes", SEQ)
p("D07", "Power-of-two helpers are exact for every 32-bit number",
  "For every unsigned 32-bit number the power-of-two test is exact, rounding down gives the largest power of two not above it, and rounding up gives the smallest power of two not below it (0 where 32 bits cannot hold it). As documented, 2 is the smallest power: 1 is none, rounds up to 2, and 0 and 1 round down to 0.",
  ["inputs"], "every 32-bit input",
  "The test prints a handful of small values.",
  ["src/data/integer.c", "inc/data/integer.h"], "bit smearing", SEQ)
p("D08", "The shared helper macros mean what they say",
  "In debug and release builds, for arguments that are whole expressions: integers survive the trip through a pointer and back; minimum, maximum and absolute value are right in every type; a failed ASSERT (debug) or ASSERT_ABORT (both) stops the program and names condition and place, a condition that holds does nothing, and the condition is evaluated exactly once; FREE and fclose release exactly once, accept null and leave null; RANDOM(a, b) stays in [a, b) and can give every number of it; enumerations have the names of their items. Statement macros are single statements, usable in an if without braces.",
  ["inputs", "configurations"], "every pair of numbers next to a power of two (and every pair of bytes); every value of rand() listed; every placement and build flavour listed",
  "The tests use a few of the macros, in one build flavour and with plain arguments.",
  ["inc/common_macro.h"], "macros of the public headers", SEQ)
p("M01", "Memory pool hands out disjoint blocks and takes everything back",
  "For every history of allocations, reallocations and frees, each live block lies inside the pool's buffer, is as large as asked for, overlaps no other and keeps its contents, and a request is refused only when no free aligned block is large enough. Freed neighbours merge again, so that the free-memory and largest-block figures are exact after every step and an emptied pool serves its largest block again. With lock callbacks this holds for concurrent users.",
  ["histories", "inputs", "configurations", "schedules"], "all operation sequences up to the depth bound over the listed pool sizes, alignments and request sizes; all interleavings of two threads within the preemption bound",
  "The test makes one sequence of allocations; wrong splitting or merging shows only after particular orders of frees.",
  ["src/mem/mplite.c", "inc/mem/mplite.h"], "buddy allocator over one buffer", SEQ)
p("M02", "Tracked allocator detects overruns and leaks, and adds nothing else",
  "Blocks of the tracked allocator behave like those of malloc, calloc, realloc and strdup for every size, including sizes whose bookkeeping would overflow. A write just before or after a block is detected when it is freed, a foreign pointer or a double free is detected, and the leak report counts exactly the bytes and blocks not yet freed.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences up to the depth bound, every damaged guard byte, every refused allocation",
  "Damage to one particular guard byte, and sizes close to the limits, are not sampled by the test.",
  ["src/mem/allocation_tracker.c", "src/mem/allocator.c", "inc/mem/mem_debug.h"], "canaries around each block and a map of live blocks", SEQ)
p("M03", "Allocation tracker is right with concurrent users",
  "Threads that allocate, free and ask for the leak report at the same time never make the tracker abort, lose or double-count a block. A report counts every block allocated before it and not freed before it ended.",
  ["schedules"], "all interleavings of two or three threads up to the preemption bound",
  "A half-entered block is visible for a few instructions only.",
  ["src/mem/allocation_tracker.c"], "mutex around the map of live blocks", CX)
p("M04", "String helpers compute their documented result within the given memory",
  "For every input the string helpers (hex conversion, UTF-8 length, replace, trim, split, bounded copy and concatenation and the others of strings.h) give the result of their reference definition. They read nothing beyond the terminator or given length, write nothing beyond the given capacity, always terminate what they write, and release everything.",
  ["inputs", "fault_sequences"], "all texts over a small alphabet up to the length bound, every capacity, every refused allocation",
  "Tests use one or two comfortable inputs per function; boundary capacities and adjacent patterns are not met.",
  ["src/mem/strings.c", "inc/mem/strings.h"], "string loops with explicit bounds", SEQ)
p("M05", "String builder holds exactly what was appended",
  "After any sequence of appends and clears the builder's text and length are exactly the concatenation of what was accepted, always terminated, across every growth and for every initial size. An append that cannot get memory or cannot be formatted fails and changes nothing.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to the depth bound, every initial size and length up to the bound, any append without memory",
  "Growth at exact boundaries and failed allocations are not tested.",
  ["src/mem/stringbuilder.c", "src/mem/asprintf.c", "inc/mem/stringbuilder.h"], "growing buffer", SEQ)
p("M06", "String parameters are a dictionary with a faithful text form",
  "After parsing a text or any sequence of additions and deletions, the parameters hold exactly the last value of each key, numbers are given back exactly or refused, and missing keys are reported without touching the caller's data. The text form parses back to the same parameters.",
  ["histories", "inputs"], "all texts over an alphabet of separators and letters up to the length bound, all operation sequences up to the depth bound, numbers at every limit",
  "Tests parse two well-formed texts; repeated keys, empty parts and numeric limits are not met.",
  ["src/mem/str_params.c", "inc/mem/str_params.h"], "hash map of duplicated strings", SEQ)
p("M07", "String parameters stay consistent when memory runs out",
  "Whatever allocation fails in any operation on string parameters, the operation reports the failure, the parameters still hold either the old or the new value of each key, and nothing leaks or is freed twice. Creation under failing memory gives either nothing or a set that contains only entries of the text.",
  ["fault_sequences", "histories"], "every single and every lasting allocation failure in all operation sequences up to the depth bound",
  "No test makes an allocation fail.",
  ["src/mem/str_params.c", "src/data/hashmap.c"], "ownership hand-over between str_params and hashmap", SEQ)
p("M08", "Memory-check builds behave like ordinary ones and report what is not freed",
  "In a build with the memory check (mem/mem_debug.h), started or not, every part of the library gives the same results as without it and never stops the program; texts the library hands out can be released with that build's free(). Once everything was released nothing is reported, and what a program did not release is reported exactly: each live block once, with its size, file, function and line.",
  ["histories", "schedules"], "38 programs over the whole library with the check started and not, alone and on two threads; all sequences of a program's own allocations up to the depth bound; every pair of texts handed out",
  "The tests of this build call what they call on one input, and look at no report; two of them end in an abort at the pinned commit.",
  ["inc/mem/mem_debug.h", "src/mem/allocator.c", "src/mem/allocation_tracker.c", "src/mem/str_params.c", "src/mem/strings.c", "src/file/file_util.c", "src/file/ini_parser.c"], "macros that route malloc/free to a tracking allocator", CX)
p("F01", "INI parser is an ordered dictionary of sections and keys",
  "After parsing a text and any sequence of puts and deletions, lookups, existence tests and foreach show exactly the last value put for each section and key, names compared without regard to case, also for names that extend one another and of any length accepted. A handler that asks to stop ends the walk, and typed getters deliver the exact number or fail.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over colliding names, critical name and value lengths, numbers at every limit",
  "Tests read one file; deletions, the parser's cache of the last section and the limits of names and numbers are not met.",
  ["src/file/ini_parser.c", "inc/file/ini_parser.h"], "list of sections, each a list of entries, cached last section", SEQ)
p("F02", "INI configuration survives dump, save and parse",
  "Whatever entries a configuration holds, as far as the format can express them, the dumped or saved text parses back to the same sections, keys and values in the same order. A dump never writes beyond the memory given, reports its size, and refuses only if memory is short.",
  ["inputs", "histories"], "all entry sequences over names and values with special characters, all lengths, all texts up to the bound, every memory size listed",
  "The test saves one file and prints it.",
  ["src/file/ini_parser.c", "src/file/ini_reader.c", "src/mem/stringbuilder.c"], "text built by the string builder, parsed by the reader", SEQ)
p("F03", "INI operations are safe when memory or files fail",
  "Whichever allocation or file access fails or is short during parse, put, dump or save, the operation reports failure or has its full effect, existing entries stay intact, and no memory or stream leaks. A save that runs out of memory leaves the old file, and a save that reports success has written everything.",
  ["fault_sequences", "histories"], "every allocation and every file access failing, once or lastingly, and every amount of free space listed",
  "No test makes an allocation or a file access fail.",
  ["src/file/ini_parser.c", "src/file/ini_reader.c"], "error returns of list, string builder and stdio", SEQ)
p("F04", "INI reader delivers exactly the documented entries",
  "For every text the reader calls its handler with exactly the sections, names and values the documented grammar gives (comments, inline comments, continuation lines, missing values, byte order mark), in order, and returns the line of the first error while it goes on with the rest. Text, file and stream input agree, and overlong lines never harm what follows. Each documented compile-time option of the reader changes exactly what it names, in builds that use it.",
  ["inputs"], "all texts over eleven significant characters and all sequences of typical lines up to the length bounds, every line length around the limit, the handler rejecting any call; four combinations of the compile-time options",
  "The tests parse a few well-formed files.",
  ["src/file/ini_reader.c", "inc/file/ini_reader.h"], "line-oriented scanner", SEQ)
p("F05", "File helpers transfer and report exactly what is there",
  "For every file content and every way the system answers (short transfers, errors, end), the helpers transfer the bytes in order without loss or repetition, report exactly what was transferred, and deliver each non-blank line once with its number. A read that could not be completed is reported, results are terminated, and nothing leaks.",
  ["inputs", "fault_sequences"], "all sequences of short, failing and ending transfers up to the bound, file sizes around buffer limits, every failing access, all short texts",
  "The system answers of a test are always complete transfers.",
  ["src/file/file_util.c", "inc/file/file_util.h"], "transfer loop, line reader, whole-file reader", SEQ)
p("F06", "Folders are made completely and paths get their slash safely",
  "mkdirs makes every missing folder of the path and nothing else and succeeds exactly if all exist afterwards, whichever step fails and whoever else makes folders at the same time. Appending a slash changes nothing but the end of the path, stays within the given size and refuses when there is no room.",
  ["inputs", "fault_sequences", "schedules"], "a set of path forms x every failing step x every step raced by another process; path lengths around the limit; all short paths x every buffer size",
  "No test races the creation or fills the buffer.",
  ["src/file/file_util.c", "inc/file/file_util.h"], "component-wise access and mkdir", SEQ)
p("F07", "Folder walk visits every entry once",
  "The walk calls its callback once for each entry of the folder except itself and its parent, with the right name, type and size, and stops when told to. It reports success only if no entry was left out, and leaves no folder open.",
  ["inputs", "fault_sequences"], "every combination of six names as file, folder or absent, both orders, every stop, every failing access",
  "The test prints the entries of the working directory.",
  ["src/file/file_iterator.c", "inc/file/file_iterator.h"], "opendir, readdir, stat", SEQ)
p("C01", "Times are converted to the right date, text and zone offset",
  "For every second of the covered range and every zone, the fast conversion gives the date and time of day of the Gregorian calendar. The time texts for logs and file names show that date and the milliseconds in their fixed layout with the right length, and the zone offset is the one in force at the current time, also around daylight saving changes.",
  ["inputs", "configurations"], "every day of 3000 years (thorough: 8400) x 27 zones x critical times of day, every second of selected days, every millisecond, every quarter of an hour of some years in ten zones",
  "Tests convert the current time only.",
  ["src/time/time_util.c", "inc/time/time_util.h"], "integer calendar arithmetic", SEQ)
p("C02", "Cached time texts always show the requester's own time",
  "Whatever was asked before and whatever other threads ask at the same time, the current-time texts show the clock reading of this very call in the zone asked for. Global initialisation is counted: the library stays usable until the last user has cleaned up, and then nothing is left.",
  ["histories", "schedules"], "all request sequences up to the depth bound, all orders of initialisation and cleanup, all interleavings of two or three requesting threads up to the preemption bound",
  "A stale cache shows only if requests of different seconds, zones or threads meet in a particular order.",
  ["src/time/time_util.c", "src/lcu.c"], "one cached text per format behind a read-write lock", CX)
p("C03", "Mail and web date texts follow their standards",
  "For every second from the year 1000 to 9999 the RFC 1123 and RFC 2822 texts name the right weekday, day, month, year and time in their fixed layout. A buffer smaller than the documented size is refused and left untouched.",
  ["inputs"], "every day of nine thousand years (quick: every fifth and the ends of months) at varied times of day, every buffer size",
  "Tests print one date.",
  ["src/time/time_rfc1123.c", "src/time/time_rfc2822.c"], "gmtime and strftime with patched names", SEQ)
p("T04", "Portable threads, locks and semaphores keep their guarantees",
  "Under every schedule a portable mutex admits one thread, a read-write lock admits one writer or many readers, a semaphore lets no more pass than there are units, and a thread runs once with its argument and name and delivers its result to join. An absent or uninitialised object is refused by every call, a creation that fails leaves no handle and nothing behind, and destroying resets the handle.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of two or three threads up to the preemption bound; all call sequences of one thread up to the depth bound with every initialisation failing or not",
  "Exclusion is broken only by particular interleavings, and no test makes an initialisation fail.",
  ["src/thread/portable_thread_posix.c", "src/thread/posix_thread.c", "inc/thread/portable_thread.h"], "heap-allocated wrappers of the pthread objects", CX)
p("L01", "File logger keeps every accepted message whole and in order",
  "Every message the file logger accepts is written to its piece files exactly once, whole, in the order of acceptance, from the moment of acceptance without further calls; flush returns only when everything accepted before is written. A message a try-my-best logger cannot queue is kept in the lost file; pieces are begun when the last has reached its size and never overwrite one another, and creation or writing that fails leaves nothing behind.",
  ["schedules", "histories", "fault_sequences", "inputs"], "all interleavings of loggers, flush, destruction and the writing thread up to the preemption bound; all message-size sequences around the piece and queue sizes; every failing allocation, file access and thread creation",
  "The demo logs lines in a loop on one schedule, never looks at the pieces and never fails a file access.",
  ["src/log/file_logger.c", "inc/log/file_logger.h"], "message queue handler writes pieces, lost file for refused messages", CX)
p("L02", "A log call delivers its message to exactly the configured targets",
  "For every configuration and every call, xlog delivers a message exactly if its level reaches the current level, to exactly the enabled targets, in the configured format (time, level, tag, thread id, place) with the whole text of the message. The level, format, target and automatic level-up queries agree with what was set, hex dumps show each byte, and no text, tag, name or length harms memory or leaves the lock held.",
  ["inputs", "configurations", "histories"], "all combinations of level, format, target, tag, place and text class; message lengths around every buffer limit; all setting sequences up to the depth bound",
  "The demo prints with a few settings and nobody reads what comes out.",
  ["src/log/xlog.c", "inc/log/xlog.h"], "one global configuration, stack buffer with heap fallback, header built from flags", SEQ)
p("L03", "Logging from several threads while reconfiguring is safe",
  "Whatever threads log and whatever is reconfigured at the same time, each message reaches each target whole, not interleaved with another one, at most once and in the order each thread logged. User callbacks never overlap, always get their own user data, and neither a removed callback nor a removed file logger is used after the call that removed it has returned.",
  ["schedules"], "all interleavings of two or three logging and configuring threads up to the preemption bound",
  "A torn line or a stale callback needs a thread stopped within a log call; the demo logs from one thread.",
  ["src/log/xlog.c", "src/log/file_logger.c"], "one mutex around the delivery and around each setting", CX)
p("L04", "Redirected and simple logging lose no output",
  "Simple-log calls print exactly the messages whose level is enabled, with the whole text and hex digits. After sending stdout to a file everything printed goes to that file until it is sent elsewhere or back to the console. A redirection that fails leaves stdout usable, so that output goes on to the place it went to before or to the console and nothing printed is lost.",
  ["histories", "inputs", "fault_sequences"], "all sequences of levels, log calls, redirections (also to a path that cannot be opened) and returns up to the depth bound; texts and lengths around the limits",
  "The demo redirects once to a file that can be opened.",
  ["src/log/slog.c", "src/log/xlog.c", "inc/log/slog.h"], "freopen of stdout, print function macro", SEQ)
p("L05", "Global initialisation is counted and says when it fails",
  "lcu_global_init reports success only if every lock the library shares between threads was made; with success, concurrent log calls are protected. Initialisations and cleanups pair up in any order: the locks stay until the last cleanup, after which nothing is left and a new initialisation works. Log calls and time texts are right before, between and after, also when an initialisation failed; cleaning up after a failed one leaves nothing behind.",
  ["histories", "fault_sequences", "schedules"], "all sequences of initialisations, cleanups, log calls and time texts up to the depth bound; a failure of every allocation and lock an initialisation makes",
  "Tests initialise once and nothing fails.",
  ["src/lcu.c", "src/log/xlog.c", "src/time/time_util.c"], "a use count around two modules' initialisation", CX)
p("L06", "The logging macros say what their names say",
  "Through every front end (xlog.h, slog.h, and logger.h with either logger) each macro delivers one message of the level in its name, with the tag, place, text or hex digits it names, evaluates its arguments at most once and stands as one statement; the minimum level, redirection and initialisation macros act on the logger chosen and read back what was set. A front end that is switched off prints nothing and changes nothing, and the same program still compiles, with redirection support or without. All of it holds from the start without an initialisation.",
  ["configurations", "histories"], "every front end, form, level, minimum level and tag; all sequences of control macros up to the depth bound over the front ends of one logger in one program",
  "The demo uses a few macros of one front end and nobody reads what comes out; no test switches logging off.",
  ["inc/log/logger_facade.h", "inc/log/logger_facade_xlog.h", "inc/log/logger_facade_slog.h", "inc/log/logger.h", "inc/log/xlog.h", "inc/log/slog.h"], "macro layers over two loggers", SEQ)
p("S01", "Separate objects do not influence one another",
  "Operations on separate objects - containers, rings, queues, strings, codecs, parsers, parameter sets, memory pools, thread pools, handlers, file loggers, dates, files - give each user the same results when two threads use them at once, when they are used in turn, and when one is used inside a step or callback of another, as when it is used alone. A paused thread pool stays paused whatever happens to other pools, short of a resume.",
  ["schedules", "histories"], "every pair of 28 programs: all schedules up to the preemption bound, every nesting position, first and later use",
  "Tests use one object of one module at a time, in one thread.",
  ["src/thread/thpool.c", "src/time/time_util.c", "src/time/time_rfc2822.c", "src/mem/strings.c", "src/file/ini_reader.c", "src/file/file_util.c", "src/file/file_iterator.c", "src/ring/msg_queue.c"], "no hidden state shared between objects, apart from locked caches", CX)
