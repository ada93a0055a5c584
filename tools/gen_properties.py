#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech=(), state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

K="src/kvtree.c"; H="src/kvtree.h"; U="src/kvtree_util.c"; IO="src/kvtree_io.c"; HE="src/kvtree_helpers.c"
M="src/kvtree_mpi.c"; MI="src/kvtree_mpi_io.c"; PR="src/kvtree_print.c"; DOC="doc/rst/users/api.rst"

p("C01","A tree behaves as a map from unique string keys to subtrees",
"After any sequence of set, get, unset, extract, clear, key/value (string or int subkey) and element operations, a tree holds exactly the key/subtree associations that a nested map with unique keys would hold: the last set wins, unrelated keys and subtrees are untouched, iteration visits each key exactly once, and size, lookups, single-value lookups and element accessors all agree. A subtree handed to set is the very object later returned by get and by the element accessors, and stays valid until its key is reset, unset, extracted or its owner is deleted. Removing a key/value pair also removes the outer key exactly when no pair remains under it. Keys and values may be passed as found in the tree itself.",
["histories","inputs"],"every finite sequence of tree operations, over keys of any bytes and any length, any nesting and any width",
"Tests run a dozen fixed sequences with two or three short keys; aliasing of prefixes, empty keys, long keys, re-setting, extraction from the middle and interleavings of operations are never reached.",
[K,H,DOC],[("linked list of elements with unique keys","kvtree.c: kvtree_set / kvtree_elem_get / kvtree_elem_extract"),("kv helpers","kvtree.c: kvtree_set_kv, kvtree_unset_kv")],
[("element list","key to subtree association","struct kvtree_struct")],["return values and iteration of the public API"])

p("C02","No memory errors, undefined behaviour, leaks or double frees",
"No sequence of valid API calls, on the success paths and on the failure paths of file operations, reads or writes memory outside live objects, uses uninitialised values, invokes undefined behaviour, or frees anything twice. Deleting a tree releases everything it owns and clears the caller's pointer, and once all trees and buffers handed to the caller are released no memory allocated by the library and no file descriptor opened by it remains.",
["histories","inputs"],"every sequence of API calls with valid arguments, including failing reads (missing, truncated, corrupt files) and rank-file sets",
"The tests run without sanitizers or leak checking, on a few small trees, and almost never drive a failure path.",
[K,U,IO,HE],[("ownership transfer on set, extract, unset, delete","kvtree.c"),("buffer management of pack/persist/read","kvtree.c: kvtree_write_persist, kvtree_read_fd")],
[],["sanitizer reports","allocation and descriptor ledger at quiescent points"])

p("C03","Merge is a deep union that copies",
"Merging a source tree into a destination leaves the destination with exactly the union of the key paths of both, and every key path that was in the destination keeps its subtree object. The source is unchanged, shares nothing with the destination (later changes to or deletion of either do not affect the other), and merging again changes nothing.",
["inputs","histories"],"every pair of trees, overlapping or disjoint, empty, with absent or empty subtrees, wide, deep, and merged in any order",
"No unit test calls merge directly; indirect uses merge small disjoint trees.",
[K,H],[("recursive merge","kvtree.c: kvtree_merge")],[],["contents of both trees before and after"])

p("C04","Format-string paths address the same nodes as step-by-step calls",
"Setting or getting through a format string of space-separated conversions reaches exactly the node reached by converting each argument as printf would and descending one key per conversion, creating missing intermediate keys on set and none on get. Set installs the given value at the last key (replacing any previous one) and returns it, get returns the associated subtree or nothing when any key is missing, and neither disturbs other nodes or the format string. Keys whose text is up to 1023 characters work for every supported conversion, and a longer one is never silently truncated.",
["inputs"],"every format of supported conversions (%s %d %lld %lu %llu %#x %#lx %f %p) in any number and order, and every argument value including extremes, empty strings and strings containing spaces or percent signs",
"Only the typed setters exercise it in tests, with two-key formats and ordinary values.",
[K,DOC],[("format tokenizer and converter","kvtree.c: kvtree_setf, kvtree_getf")],[],["returned subtree identity and tree contents"])

p("C05","Typed values read back exactly as set",
"A value stored through a typed setter (byte count, crc, int, unsigned long, string, 64-bit int, double, pointer) is returned unchanged by the matching getter, replaces any earlier value of that key so that exactly one value remains, affects no other key, and survives merging, packing and writing to and reading from a file, whatever locale the writing and the reading process have selected. Key and text may be passed as found in the tree itself. When the tree or key is absent, the key has no value, or the text cannot be accepted, the getter reports failure and leaves the output untouched.",
["inputs","histories"],"every value of each type (all bit patterns, extremes, empty and long strings, null pointer), any key, any earlier content of that key",
"Tests set and get one or two mid-range values per type; extremes, overwriting across types and failure paths are not sampled.",
[U,HE],[("text encoding of values","kvtree_util.c"),("string to double conversion","kvtree_helpers.c: kvtree_atod")],[],["getter result and output parameter","tree contents"])

p("C06","Sorting orders and listing enumerates without losing anything",
"Sorting by string (byte by byte, in every locale) or by integer value, in either direction, leaves the same elements and subtrees in the tree with iteration in that order over the whole range of keys, and the order lasts until a key is set; the order within the subtrees is left alone. Listing integer keys returns, in ascending order, one entry per key with the right count, returns an empty list for an empty or absent tree, and does not change the tree.",
["inputs"],"every tree size from empty up, every set of keys, the full range of int including the most negative and most positive, duplicates after conversion, both directions, repeated sorts",
"No test calls a sort or the list function directly; only a three-element gather does, with ranks 0..2.",
[K,DOC],[("comparison functions and relinking","kvtree.c: kvtree_cmp_fn_*, kvtree_sort, kvtree_sort_int, kvtree_list_int")],[],["iteration order before and after"])

p("C07","Packing and unpacking reproduce the tree and agree on sizes",
"Packing writes exactly as many bytes as the size function announced, touches nothing beyond them, leaves the tree unchanged, and unpacking those bytes into an empty tree consumes exactly the same number of bytes and yields an equal tree. This holds for an absent tree (packed as an empty one) and for elements without a subtree (read back as an empty subtree).",
["inputs"],"every tree: empty, absent subtrees, any width (beyond 65535 elements), any key length (beyond 65535 bytes), any nesting, any buffer alignment",
"No test calls pack or unpack directly; MPI and file tests use trees with a handful of short keys.",
[K],[("pack/unpack recursion","kvtree.c: kvtree_pack_size, kvtree_pack, kvtree_unpack")],[],["guard bytes and guard pages around buffers","returned sizes","independent comparison of trees"])

p("C08","Packed and file bytes follow the documented format",
"The bytes produced for any tree decode, by an independent reader of the documented big-endian layout, to the same tree: header fields, total size, flags, data and a CRC32 over everything before it. Conversely every byte sequence laid out by an independent writer of that format, in any element order and with or without the checksum, is read as the tree it describes, so files stay exchangeable between versions and machines; a record that announces another magic number, type or version is refused.",
["inputs"],"every tree and every conforming byte sequence",
"Tests only ever read what the same build wrote; a symmetric change of writer and reader goes unnoticed (the one stored fixture file is empty).",
[K,HE,"src/kvtree_io.h","doc/rst/users/fileformat.rst"],[("header packing in network order","kvtree_helpers.c: kvtree_pack_uint*"),("CRC trailer","kvtree.c: kvtree_write_persist, kvtree_read_fd")],[],["bytes in buffers and files"])

p("C09","A written file reads back as the tree, replacing what was there",
"After a successful write (plain, locked, or write-back after locked read) the file holds exactly one complete record of the tree and nothing of its previous contents, whatever those were, and any of the read functions merges an equal tree into the caller's tree, keeping what the caller's tree already held. Reading an empty file succeeds and adds nothing; reading a missing file with the plain read fails and leaves the tree and the file system unchanged. Writing never alters the tree.",
["inputs","histories"],"every tree, every earlier file content (longer, shorter, garbage, absent), every combination and sequence of write and read functions",
"Tests write one value per file and mostly read it with the same function; shrinking rewrites and mixed functions are not covered.",
[K,IO,DOC],[("open/truncate/write/close","kvtree.c: kvtree_write_file, kvtree_write_with_lock, kvtree_write_close_unlock"),("read and merge","kvtree.c: kvtree_read_fd, kvtree_read_file, kvtree_read_with_lock, kvtree_lock_open_read")],[],["file bytes and length","resulting trees"])

p("C10","Damage to a file is never returned as data",
"If a file written by the library is afterwards truncated anywhere, has any bit or any burst of up to 32 bits in the checksummed bytes flipped, or has its beginning mixed with another version's ending, then a read either reports failure and leaves the caller's tree as it was, or yields exactly the tree originally written; it never yields anything else. An empty file counts as holding no data.",
["inputs","crash_points"],"every tree, every truncation length, every bit position, every burst position, every splice point between two written files, through each of the read functions",
"No test damages a file's bytes; the locking test only observes accidental tearing without checking contents.",
[K],[("magic, type, version, size and CRC checks; read into a temporary before merging","kvtree.c: kvtree_read_fd")],[],["return code and caller's tree after reading a mutated file"])

p("C11","Any file content can be read without crashing",
"Opening a file with arbitrary contents through any of the read functions or the print utility returns either success or failure to the caller in bounded time: it never accesses memory outside its buffers, never terminates the process and never leaks, and the outcome depends on the bytes of the file alone. After a failure the caller's tree is unchanged.",
["inputs"],"every byte sequence as file content, including valid headers and checksums around malformed data, inconsistent counts, missing terminators, absurd sizes, and checksum flag cleared",
"No test reads a malformed file.",
[K,IO,PR],[("validation before unpacking","kvtree.c: kvtree_read_fd")],[],["sanitizer reports, exit status and return codes over generated files"])

p("C12","I/O errors are absorbed when transient and reported when not",
"Interrupted, partial and would-block transfers and a few failing attempts followed by success do not change the outcome or the bytes of a read or write. When opening, locking, reading, writing, truncating or closing fails for good, the public file operation reports failure and never success, does not act on any descriptor it did not open, leaves the caller's tree on reads either unchanged or with the complete file merged in, and leaves no descriptor open (a descriptor handed to the caller by a failing call is marked invalid).",
["fault_sequences","inputs"],"every placement of each error at each system call of each file operation, every split of transfers into pieces, every combination of transient faults within the retry limits",
"No test injects an error or a short transfer.",
[IO,K],[("retry loops","kvtree_io.c: kvtree_open, kvtree_read_attempt, kvtree_write_attempt"),("error propagation","kvtree.c write/read functions")],[],["system-call boundary (interposed) and return codes"])

p("C13","A write that reports success is flushed, closed and complete",
"When any file-writing operation (plain, locked, write-back, rank-file set, parallel gather) returns success, every byte of every file it wrote was accepted by the operating system, flushed to stable storage after the last modification and before the return, and the file was closed with no lock left held. If flushing fails with an I/O or space error, the operation does not report success.",
["histories","fault_sequences"],"every write operation, every tree, every placement of a flush failure",
"Tests cannot observe whether data was flushed, and never make a flush fail.",
[IO,K,MI],[("fsync before close","kvtree_io.c: kvtree_close")],[],["ordered log of interposed system calls per descriptor"])

p("C14","Being killed mid-write never yields a mixture",
"If a process is killed at any point inside a plain, locked or write-back file write, then afterwards every reader obtains the complete old tree, the complete new tree, nothing (an empty file), or a reported failure, never any other content. No lock survives the killed process: later locked operations proceed, and a new successful write makes the file fully readable again.",
["crash_points","histories"],"every system call and every byte offset of a partial write at which the process dies, every pair of old and new trees (shorter, longer, same size), each write function",
"No test kills a writer.",
[K,IO],[("CRC and size in the record, advisory locks released by the kernel","kvtree.c: kvtree_read_fd; kvtree_io.c")],[],["file contents as read after the kill"])

p("C15","Locked reads see whole writes in a consistent order",
"When several processes use the locked read, locked write and locked read-modify-write operations on one file, every locked read returns exactly the tree of one completed write (never a torn, empty or mixed one once the file has been written), and each read returns the latest write in an order consistent with real time.",
["schedules","histories"],"every interleaving of any number of processes, trees of different sizes, slow and partial transfers inside the critical sections, both lock flavours (flock and fcntl)",
"The test hammers one file and only checks that reads do not fail; it never checks what was read, uses trees of one size, and relies on luck for interleavings.",
[IO,K],[("shared/exclusive advisory locks around the whole operation","kvtree_io.c: kvtree_open_with_lock, kvtree_close_with_unlock")],[],["per-process operation histories with call and return times"])

p("C16","Locked read-modify-write never loses an update",
"Updates made by concurrent processes through lock-and-read followed by write-and-unlock are serialised: each update starts from the result of the previous one, every acknowledged update is present in the final file exactly once, and none is overwritten or duplicated. While one process is between the two calls, no other process completes a locked read, write or update of that file; after the second call others proceed.",
["schedules","histories"],"every interleaving of updating and reading processes with injected delays inside the critical section, growing and shrinking trees, both lock flavours",
"No test uses the read-modify-write pair at all.",
[K,IO],[("exclusive lock held across the pair","kvtree.c: kvtree_lock_open_read, kvtree_write_close_unlock")],[],["history of updates with unique ids and the final file"])

p("C17","Created files honour the user's file-creation mask",
"Files created by any write or locked operation get read and write permission for user, group and others reduced by the process's file-creation mask and no execute permission, existing files keep their permissions when rewritten, and the process's mask is the same after every call as before it.",
["configurations","inputs"],"every value of the mask and every operation that can create a file",
"Tests never look at permissions or the mask.",
[IO],[("mask query","kvtree_io.c: kvtree_getmode")],[],["stat of created files, umask before and after"])

p("C18","Printing shows every key once at its depth",
"Printing a tree in tree mode outputs each element's key on its own line in iteration order, indented by two spaces per level below the given indentation, and in key=value mode condenses exactly those elements having a single childless child to 'key = value'. It works for any nesting, indentation and key, changes nothing, and the command-line utility prints the same for a file, exiting with success exactly when the file could be read and the arguments were valid.",
["inputs"],"every tree (any depth, width, key bytes), every starting indentation, both modes, every command line of the utility",
"One test prints an empty file.",
[K,PR],[("recursive printing","kvtree.c: kvtree_print_mode, kvtree_elem_print, kvtree_log")],[],["bytes on stdout and exit status"])

p("C19","Separate trees may be used from separate threads",
"Threads that work on their own trees (building, querying, formatting keys, sorting, packing, reading and writing their own files with an unchanged mask) get the same results as if they ran alone, and several threads may concurrently look up, iterate, list, pack, print-free inspect and merge from one shared tree that nobody modifies. No data race arises in either case.",
["schedules","programs"],"every interleaving of threads over disjoint trees and over one shared read-only tree",
"No test uses threads; hidden static state would go unnoticed.",
[K,U,HE,IO],[("re-entrant tokenising, no static buffers, const lookups","kvtree.c, kvtree_util.c")],[],["race detector reports and per-thread comparison with a model"])

p("C20","Messages deliver exact copies between two processes",
"A tree sent point-to-point arrives at the named receiver as an equal tree that replaces whatever the receiving tree held, the sender's tree is unchanged, and successive messages between a pair arrive in order and without leftovers. The combined send-and-receive works for any pattern of partners (rings, pairs, self, differing partners, an absent partner on either side, when the receiving tree stays untouched if no sender is named) without deadlock, whatever the message sizes; a tree too large for a message is refused, never delivered in part.",
["schedules","inputs","configurations"],"every tree size (empty, absent, beyond eager limits), every communicator size and rank pair, every partner pattern, every admissible message scheduling and buffering choice",
"The test sends one small tree between two of three ranks, where buffering hides blocking-order mistakes.",
[M],[("size message followed by packed data; non-blocking pairwise exchange","kvtree_mpi.c: kvtree_send, kvtree_recv, kvtree_sendrecv")],[],["trees on both sides; MPI call log (unmatched messages, pending requests, deadlock)"])

p("C21","Broadcast gives every process the root's tree",
"After a broadcast every process in the communicator, whatever the root, holds a tree equal to the root's, replacing what it held before, while the root's own tree is unchanged. Processes outside the communicator are not involved, and consecutive broadcasts do not interfere.",
["schedules","inputs","configurations"],"every communicator size including one, every root, every tree (empty, absent at root, large), every previous content at receivers, every schedule",
"The test broadcasts a two-key tree from rank 0 in a three-process communicator.",
[M],[("size then data broadcast","kvtree_mpi.c: kvtree_bcast")],[],["trees on all processes"])

p("C22","Sparse exchange delivers every message exactly once",
"In a global exchange (default, leftward or rightward) over any communicator, each process ends with exactly one entry per process that addressed it, keyed by that process's rank and holding an equal copy of the tree it sent (also an empty one), nothing lost, duplicated, misrouted or mixed, and all three variants give the same result. What was queued for a destination in several pieces arrives as their union; the send trees are unchanged and the exchange completes whatever the schedule.",
["schedules","inputs","configurations"],"every number of processes (powers of two or not, one, many), every sparse or dense pattern including self and empty, any message size, subset and reordered communicators",
"The test uses three processes in one ring pattern with one key each, so multi-hop forwarding, wrap-around and early termination are barely touched.",
[M],[("Bruck-style forwarding with hop limit","kvtree_mpi.c: kvtree_exchange_direction_hops, kvtree_exchange"),("queueing","kvtree_mpi.c: kvtree_exchange_sendq")],[],["received trees against the pattern"])

p("C23","Gather then scatter returns each process its own tree",
"After a successful parallel write under a path prefix, a parallel read with that prefix by the same number of processes returns to each process exactly the tree it wrote, merged into what its tree already held, and every process gets the same success result. This holds for any number of processes and data sizes (one file or several, one map level or several), for overwriting an earlier file set under the same prefix, and leaves the written trees unchanged; the files follow the documented level/ranks/file structure.",
["inputs","configurations","schedules"],"every communicator size, every distribution of tree sizes across processes including empty trees, any earlier file set under the prefix, maps of one or more levels",
"The test writes three tiny trees into one file; several files, several levels, overwriting and uneven sizes are never reached.",
[MI,"doc/rst/users/gatherscatter.rst"],[("segmented scan choosing writers, recursive maps","kvtree_mpi_io.c: pick_writer, kvtree_write_gather_map, kvtree_read_scatter_map")],[],["files written; trees on each process"],
"segment size override so that several map levels occur with few processes")

p("C24","A failed gather or scatter fails on every process alike",
"If any process cannot write its file, or any file of the set is missing, empty, truncated, damaged or written for a different number of processes, then every process in the communicator returns failure from that call, no process hangs or crashes, and no caller's tree is changed by the failed read.",
["fault_sequences","configurations","schedules"],"every single file of the set damaged in each way, every process suffering the write error, every communicator size against every written size",
"One test checks that null arguments fail; file damage and partial write failure are not tested with several processes.",
[MI],[("collective agreement on success","kvtree_mpi_io.c: kvtree_alltrue")],[],["return codes and trees on all processes; deadlock monitor"],
"segment size override")

p("C25","Rank-file sets written or read by one process are interchangeable",
"A file set written by a single process from a tree with one entry per rank, or by a parallel gather, can be read back both by the single-process reader (giving one entry per rank with its tree, merged into the caller's tree) and by a parallel scatter (giving each process its tree), whatever the number of ranks, the number of entries per file, the characters in the prefix, other files in the directory, or earlier sets under the same prefix. If any file of the set is missing or damaged, or ranks are missing, the single-process reader reports failure. Writing changes neither keys nor subtrees of the input.",
["inputs","histories","configurations"],"every rank count, entries-per-file setting, prefix path (with special characters, neighbouring sets with similar names), stale files from earlier writes, each file missing or damaged",
"The test covers three ranks, one prefix, and one missing file.",
[K,MI],[("two-level file set","kvtree.c: kvtree_write_to_gather, kvtree_read_scatter_single")],[],["trees read back; return codes; files present"])

p("C26","No process handles an unbounded share of a gathered file set",
"In a parallel gather the data is split so that, beyond the single tree of the process that starts a file, the packed trees collected into any one file total less than the segment size (1 MB), however sizes are distributed over the processes. Each process's tree lies in exactly one leaf file, written by a process not after it in rank order.",
["inputs","configurations"],"every communicator size and every distribution of packed sizes, including sizes that exactly fill segments",
"The test's data is a few dozen bytes, so there is only ever one file.",
[MI,"doc/rst/users/gatherscatter.rst"],[("writer selection","kvtree_mpi_io.c: pick_writer")],[],["sizes and contents of the files written"],"segment size override")

p("C27","An absent tree behaves as an empty one",
"Passing no tree where a tree is read or cleared (delete, unset, clear, size, get, iteration, key/value and format lookups, typed getters, merge source, pack, sort and list) is harmless and acts like an empty tree; setting into no tree does nothing, returns nothing and does not consume the value. Operations that need a tree, file name or descriptor and get none report failure without side effects.",
["inputs","histories"],"every function of the interface documented to accept no tree, in every combination with present or absent keys and values",
"Only delete and one MPI function are called without a tree in tests.",
[K,U,DOC],[("null checks at entry","kvtree.c")],[],["return values, sanitizer reports, allocation ledger"])

p("C28","Running out of memory is never mistaken for success",
"When memory cannot be allocated inside the library, whatever allocation of whatever operation it is, the operation either ends the process with a nonzero exit status, or reports failure to its caller without losing what the caller's trees held before (apart from the value being replaced), or still delivers its complete result. It never crashes, never hangs, never leaks, and never reports success with a key, value, byte or message missing. A file that was being written holds afterwards the old record, the new record, nothing, or something every reader rejects.",
["fault_sequences","inputs"],"every allocation of every operation (tree building, lookups by format, merge, sort, list, unpack, persist, file and rank-file operations, messages, broadcast, exchange, gather, scatter) refused once or from there on",
"No test makes an allocation fail.",
[K,HE,U,M,MI],[("abort on failed allocation","kvtree_helpers.c: kvtree_malloc; kvtree.c: kvtree_elem_set_key, kvtree_setf, kvtree_getf"),("record sizes from files are not trusted","kvtree.c: kvtree_read_fd")],[],["allocation boundary (interposed), exit status, return codes, trees and files"])

p("C29","Operations and the application's own messages leave each other alone",
"Any program of sends, send-receives, broadcasts, exchanges, gathers and scatters that is valid on its own, issued back to back without barriers on the same, equal or overlapping communicators, gives every operation the result it has alone. Messages and collectives of the application on those communicators, even when pending across the operations (under tags the library does not use), arrive complete and unchanged, and an operation never takes, delays for good or leaves behind any message, request or communicator.",
["programs","schedules","configurations"],"every valid program of parallel operations and application messages over overlapping communicators, every message size, every admissible message scheduling and buffering choice",
"The tests separate operations by their setup and never have a message of the caller's in flight.",
[M,MI],[("fixed tag and named sources for every message","kvtree_mpi.c"),("collective agreement at the end of gather and scatter","kvtree_mpi_io.c: kvtree_alltrue")],[],["results on all processes; application messages; unmatched messages, pending requests and deadlock"])

p("C30","Operations change nothing but what they were asked to change",
"A file operation, whether it succeeds or fails, writes or creates no file other than the named one (for a gathered set: the prefix itself and <prefix>.<level>.<number>), removes and renames none, and changes no file's permissions; reading never modifies a file (a locked read may create a missing one, empty). Paths may be spelled in any way the system accepts, relative or through links. The working directory, environment, signal handling, timers, locale, creation mask and the caller's descriptors are afterwards as they were, and operations that succeed, except printing, print nothing.",
["inputs","configurations","fault_sequences"],"every file operation, path spelling, surrounding directory content and injected fault",
"Tests use one scratch file and never look at anything else.",
[K,IO,MI],[("files named by callers","kvtree.c: kvtree_write_file, kvtree_read_with_lock, kvtree_write_to_gather; kvtree_mpi_io.c")],[],["directory trees and process state before and after; captured output"])

p("C31","A rank-file set that contradicts itself is refused or read in bounded time",
"Reading a rank-file set whose files are each valid records but do not fit together (level, rank count, rank, file name or offset missing, repeated or out of range; files missing, mixed up, naming each other in circles, in long chains, or sharing the maps below them) ends in time proportional to the files there are, on every process alike, without crash, undefined behaviour or leak. If it fails, no caller's tree has changed; if it succeeds, nothing was delivered that no file of the set holds (for a parallel read: holds for that process), nothing held before is lost, and a single-process read delivers as many entries as the set says it has.",
["inputs","configurations","schedules"],"every contradictory combination of valid records under a prefix, every communicator size",
"Tests only read sets the library has just written, or with one file missing.",
[K,MI,M],[("following the maps","kvtree.c: kvtree_read_scatter_file; kvtree_mpi_io.c: kvtree_read_scatter_map"),("distances from rank keys","kvtree_mpi.c: kvtree_exchange_direction_hops")],[],["return codes and trees on all processes, sanitizer reports, descriptor ledger, CPU time"])

p("C32","Records follow one another in a descriptor",
"Writing a tree through a caller's descriptor puts exactly one record where the descriptor stands (or at the end of an appending file), and reading through a descriptor takes exactly one record from there and returns its size, so that records and bytes of the application can follow one another in a file, pipe or socket and be read back in order, whoever wrote them. At the end of the input reading returns 0, of a cut or damaged record it fails, both without changing the tree. The descriptor stays open with its flags; nothing before or after the record is touched.",
["inputs","histories","fault_sequences"],"every sequence of records and other bytes, kind of descriptor, starting position, and division into transfers",
"Tests never use a caller's descriptor for more than one record.",
[K,IO],[("one record per call","kvtree.c: kvtree_write_fd, kvtree_read_fd"),("complete transfers","kvtree_io.c: kvtree_read_attempt, kvtree_write_attempt")],[],["bytes on the descriptor, its position and flags, return values, trees"])

p("C33","What a caller holds of a tree stays valid until it is removed",
"Elements, key texts, value texts and subtrees obtained from a tree remain the same objects with the same content, usable by the caller, until that element (or one above it) is removed, replaced or deleted: whatever is added elsewhere, sorted, merged in, packed, written, read into the tree from a file or a rank-file set, queued, sent, exchanged, broadcast from it or gathered. A subtree extracted from a tree keeps everything held in it, also when set elsewhere.",
["inputs","histories","programs"],"every tree, every set of held parts, every sequence of operations of the interface",
"Tests use what they hold at once.",
[K,U,M,MI],[("elements are linked, not copied","kvtree.c: kvtree_set, kvtree_merge, kvtree_sort, kvtree_extract")],[],["addresses and contents of held parts, sanitizer reports"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
