_M = "TLA+ specification checked by TLC; real-code traces of spec-generated and random scripts validated against it by TLC"
TECHNIQUE, NOTE, NA = {}, {}, {}
def _n(i, text, technique=_M):
    TECHNIQUE[i] = technique
    NOTE[i] = text
_n("B01", "Bounded-exhaustive on the spec (LinearBuffer.tla, 1 buffer <=3 bytes and 2 buffers <=1 byte); every transition of those models and hundreds of random 40-step scripts are executed on the real buffers (ASan build) and every step's full content is decided by TLC. Trusts TLC, the compiler and the harness. Also contents of several MB (blocks of up to 100003 bytes per byte of the specification).")
_n("B02", "As B01 with maximum sizes, refused allocations and three kinds of allocator; a ledger of every block decides ownership. Assumes an initial size within the maximum (not checked by the code). Also limits beyond 32 bits.")
_n("B03", "DynBuffer.tla bounded-exhaustive (<=3 bytes, all amounts incl. the largest integers); every transition replayed and random 50-step scripts; v1 and v2 protocols on separate views as the concepts require. Also contents of several MB.")
_A = "AsyncFile.tla models contexts, one-thread file services, files (identity, descriptor, position) and operations from initiation to delivery. TLC checks its invariants and enumerates it within small bounds; every transition of that graph and random longer scripts (3 files, 2 contexts, up to 8 operations in flight) run on the real code under ASan with the pool thread held by gates, so the schedule is exactly the script's; TLC decides each recorded step from %s."
_n("A01", _A % "handler calls, the context and executor each ran on, and whether the context still had work")
_n("A02", _A % "results, buffers, file contents and positions; operations may also be stopped between their cancellation check and their transfer (one known finding, A02:transfer-after-close)")
_n("A03", _A % "which operations were aborted, file contents and a decoy file that takes over a closed descriptor")
_n("A04", _A % "descriptor tables, positions and outcomes through moves")
_n("A05", _A % "handler destructions, descriptors left open, bad closes and the decoy")
_n("A06", "AsyncThreads.tla: threads with files of their own, files travelling in handlers, two services; TLC checks it with an explicit pool (2 threads, 2-3 operations, safety and that every operation comes back) and generates what a thread may do; hundreds of random programs of 2-4 threads run freely on the real code under ThreadSanitizer (where it runs; a report is a violation) and under ASan, logged without synchronising the threads, and TLC decides each log. Schedules are the machine's, not enumerated. Closing, destroying and assigning over a file happen when its operations have finished (see A02 on closing under a running transfer).")
_n("C01", "Token.tla bounded-exhaustive (2 sources, 2 tokens; thorough 3 and 3); every transition and random 80-step scripts (3 sources, 4 tokens) replayed; a sample of operations runs while one thread per token queries, copies and drops it, under ThreadSanitizer where it runs. What reset() does to a live source's tokens and self-assignment are left open. Also up to a million cancels in a row and 65537 tokens at a time.")
_n("H01", "UniqueHandler.tla bounded-exhaustive (two objects, handlers that set, reset, complete, move or delete an object when invoked or dropped, throwing handlers, refused allocations); every transition and hundreds of random 60-step scripts over three objects run on the real class (ASan), with ledger allocators; TLC decides calls, drops, results, emptiness and the blocks outstanding at each step.")
_W = "Wrapper.tla: stacks of bound and composed layers over a handler, each holding arguments and work. Bounded-exhaustive for all stacks of two layers (and posted single layers); every transition and random scripts with three wrappers, moves and posts (thorough: three layers) run on the real templates under ASan; TLC decides %s."
_n("H02", _W % "traits, arguments, resumptions, the context of every call, drops and copies")
_n("H03", _W % "which contexts are kept from stopping before, during and after every step")
_n("H04", "Launch.tla: operations kept by lazy tokens (use_awaitable, deferred, a token of the harness) or started by eager ones (handlers with and without executors, use_future, detached) in a world of one file, a SOCKS stream, two listeners and a buffered stream; bounded-exhaustive with one kept operation (thorough: two), action properties on the model; its transitions and random 40-step scripts with three kept operations of all kinds, arguments changed and freed right after the initiating call or while kept, run on the real library under ASan; TLC decides effects, results, where and how often each completion ran. Tokens whose async_result has no return_type (deferred, for all but connect) do not compile with the library and are not claimed.")
_n("B04", "BufferedStream.tla bounded-exhaustive (2-byte buffers, one flush and one fill pending, partial transfers, errors, close, reopen); every transition and random 80-step scripts (up to 1500-byte pieces, several limits) run on the real class over a next layer whose every transfer the script decides (ASan); TLC decides what was sent, read, reported, left over and called after every step. Either operation may be cancelled through its handler's slot. What a fill pending during close() leaves in the read buffer is left open. Also contents of hundreds of KB.")
_n("F01", "FileIO.tla (positions beyond 32 bits as pairs) bounded-exhaustive for one file of <=3 bytes, two handles; every transition and random 60-step scripts (2 files, 4 handles of all three kinds, up to 130 buffers, interrupted and partial transfers) run on the real file system under ASan; TLC decides counts, bytes read, the whole file and every handle's position after every step. Also transfers of hundreds of KB and buffers of 2^32 bytes.")
_n("F02", "FileOpen.tla: names, links, flags, umask; bounded-exhaustive over a small name space; every transition, every combination of the seven main flag bits against five kinds of path (thorough: all ten bits), and random scripts with failing system calls run in a scratch directory; TLC decides outcome, access, created mode, contents and descriptors left. Incomplete combinations (no access, no disposition, truncation without write access) are left open. Runs as root, so permission refusals are only injected.")
_n("F03", "Handles.tla: plain and owning handles, descriptors and who owns them; bounded-exhaustive (3 objects); transitions and random 60-step scripts (6 objects) with failing opens, duplicates and closes run on the real classes under ASan; TLC decides descriptors closed (exactly which, in order) and the table of open descriptors. Self-move and the state after a failing move are left open.")
_n("F04", "FileErrors.tla: what the system says to every function on nine kinds of descriptor (regular files of each access, directory, pipe ends, a device without space, none), with and without injected errors (the usual ones and any other the system has) and interruptions; every transition of the model and random 80-step scripts on four handles run on the real code in three calling styles (error_code clean, error_code already set, throwing); TLC decides the code reported, the value returned and that failures changed nothing. That an interrupted close() is reported or not is left open.")
_n("F05", "FileMeta.tla: permission bits and nanosecond times before and after 1970 up to the limits of file_time_type; bounded-exhaustive; every transition and random 100-step scripts through three handles run on a memory file system (thorough: also on disk); TLC decides permissions, both times, content, size and positions after every step. File attributes do not exist on Linux: they are checked to do nothing. The creation time read back is left open.")
_n("F06", "WholeFile.tla bounded-exhaustive; every transition with sizes around the transfer limits, and random 30-step scripts with up to 200000-byte files, six kinds of container (limited, refusing to grow, 16-bit sizes), short transfers, interruptions and failing open/fstat/read/write/close run on the real code under ASan; TLC decides the outcome, what was read and what is in the files. Reading from a handle that is not at the beginning may fail, but if it succeeds it has read exactly what is left.")
_S = "Socks.tla: the request each operation has to send, what every reply means and how long it is, over a stream that takes and delivers bytes in any pieces, fails or ends anywhere. Model-checked and enumerated (%s); every transition and random dialogues of up to three operations run on the real operations over a stream whose every transfer the script decides (ASan); TLC decides %s."
_n("S01", _S % ("requests: all kinds with edge-length arguments; fragmentation: one operation, all piece sizes, errors at every point", "the bytes accepted by the stream against the encoding of the arguments. Arguments the protocol documents forbid although they have an encoding (no methods, empty user name, empty host name, UDP for SOCKS4) may be encoded or rejected"))
_n("S02", _S % ("replies: all 256 values of every byte with a meaning, all name lengths; every cut of a reply followed by silence, end or reset", "the error, the method, that the handler ran once and not inside the call. A method that was never offered and a non-zero reserved byte are left open"))
_n("S03", _S % ("fragmentation with data following, and sessions whose replies arrive all at once", "that a successful operation took exactly the reply and that one still waiting has not got all of it"))
_n("U01", "Url.tla describes the supported form twice, by cutting at delimiters and by a byte-by-byte machine; TLC checks that the two agree, and that the components put together give the input, for all inputs over 12 representative characters and over 14 longer pieces (4 each, thorough 5). All such inputs (also behind six beginnings), every byte value in 21 places, port numbers, and thousands of random, mutated and truncated URLs are parsed by the real class from exactly sized blocks (ASan); TLC decides acceptance and every component. Forms legal in RFC 3986 but not promised (empty port, host#fragment, empty host with a port, empty zone) may be accepted or rejected, but not with other components. Also components of hundreds of KB.")
_n("N01", "Connect.tla: the resolver's answer and what each endpoint does (accepts, refuses, network or host unreachable, no such address family, or keeps silent until the caller cancels or closes), for up to 3 endpoints and all three forms, fresh and connected sockets; every transition and random lists of up to 9 run on the real code against listeners, with name resolution, socket() and connect() interposed (ASan); TLC decides the query, the order of attempts, the outcome, which listeners saw a connection and which connections are still open. What asynchronous connect does after a socket could not be opened is left open: Asio takes it for closed.")
_n("T01", "Chrono.tla (numbers of any size as base-1000 digits; checked by TLC against its own integers, that every outcome is determined and that splitting and joining are inverse, for representations of 2-4 bits); the real templates are run for 304 combinations of units and signed representations of 8-64 bits (splitting, joining, and joining what was split) and 192 casts, with values around every limit (8-bit ones exhaustively), and TLC decides every result. Whole units that are no multiple of the time's unit are left out; an unexact cast may be refused if a 64-bit intermediate would overflow.")
_n("G01", "Flags.tla: sets of bits; set laws as invariants, every transition over {0, 31} for two objects, random names, values and operators over 32 bits for each of the five types; which bit a simple name stands for is learnt from the trace (distinct ones), permission bits are fixed by the specification. Constant expressions for five pairs of values.")
_n("E01", "Codes.tla: four variables holding codes, made in two translation units by seven means (constant, function, assignment, before main, in threads, ...), by the URL parser and by SOCKS operations over a canned stream, copied, thrown and caught; every comparison, message and name in either unit; invariants on the model (codes are equal iff category and number are), all its transitions plus a table of every code x every way x every enumerator, in three build configurations (thorough: four). One program; categories across shared libraries are not covered.")
_n("M01", "Ledger.tla: owners of blocks, descriptors and threads; model-checked that nothing is held when no owner is left. Scripts of the other properties (all but E01, G01, T01) run in programs whose operator new and delete, descriptors and threads are counted, once to warm up and once recorded; plus random cycles of token and file operations repeated three times and compared at each return. TLC decides the counts. Blocks of the C library (malloc called directly) are not counted; use_future in H04's scripts is replaced, since Asio's system context keeps memory.")
