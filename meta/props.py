"""The single source for properties.jsonl and MANIFEST.json: python3 meta/props.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/nudb/impl/"
D = "include/nudb/detail/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(
        row={"id": id, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
             "anchors": {"files": files,
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                         "observe_at": list(observe), "hook_needed": None}},
        technique=technique, note=note, na=na))


FILES_TEST = "the tests only fail calls, they never cut power between two writes, so an order that is wrong on disk passes"

# ---------------------------------------------------------------- crash consistency of a commit
prop("C01", "A commit is preceded by a durable rollback header",
     "Before a commit changes the data file or the key file, a log file header describing the state to roll back to "
     "(identity, salt, block size, key file size and data file size, taken before any change) has been written to the log file "
     "and synced successfully.",
     ["crash_points", "fault_sequences", "inputs"], "every commit, every crash point between two file operations, every failing operation",
     FILES_TEST, [I + "basic_store.ipp", D + "format.hpp"],
     [("log header written and synced first", "basic_store::commit"), ("write(File&, log_file_header)", "detail/format.hpp")],
     [("log file header", "what recovery rolls back to", "detail::log_file_header")], ["log file", "data file", "key file"],
     "typestate over the inlined commit's CFG (LLVM IR, value-numbered) with symbolic byte content of the header",
     "Sound for all paths of flush/close through commit in the analysed configuration; trusts File::sync.")
prop("C02", "Original buckets are durable in the log before the key file is overwritten",
     "A commit overwrites or adds a key file bucket only after the original image of every existing bucket it will change has been appended to the "
     "log file together with the bucket's index, and the log file has been synced successfully.",
     ["crash_points", "fault_sequences", "histories"], "every set of buckets touched by a commit, every crash point, every failing operation",
     FILES_TEST, [I + "basic_store.ipp"],
     [("bucket images collected before modification", "basic_store::load"), ("log records written and synced before key file writes", "basic_store::commit")],
     [("c0", "original buckets", "basic_store::commit"), ("c1", "new buckets", "basic_store::commit")], ["log file", "key file"],
     "typestate over the inlined commit's CFG with container-iteration and cache provenance facts",
     "All paths of commit; cache and bucket operations are covered by C20, C34 and C35.")
prop("C03", "The log is discarded only after data and key files are durable",
     "A commit truncates the log file only after every data file append and every key file bucket of the commit has been written and both "
     "files have been synced successfully; the truncation is synced before the commit reports success.",
     ["crash_points", "fault_sequences"], "every commit, every crash point and failing operation after the first key file write",
     FILES_TEST, [I + "basic_store.ipp"],
     [("df.sync, kf.sync, lf.trunc, lf.sync", "basic_store::commit")], [], ["log file"],
     "typestate over the inlined commit's CFG (dirty/synced state per file)",
     "All paths of commit; trusts File::sync to make earlier writes durable.")
prop("C04", "Every buffered record reaches the data file and the index before it is published",
     "Each element inserted since the last commit is appended to the data file exactly once, as one complete record (size, key, value), at the offset that is stored "
     "in exactly one index entry carrying its size and hash, in the bucket its hash selects, before the buffered copy is dropped; no element is skipped on any path that reports success.",
     ["inputs", "histories", "fault_sequences"], "every set of inserted elements, every bucket layout and every buffering state",
     "the tests insert small random sets and read them back, which reaches few bulk-buffer boundaries and no failing write between the two loops",
     [I + "basic_store.ipp", D + "pool.hpp", D + "bulkio.hpp"],
     [("data record loop and index loop over the same pool", "basic_store::commit")],
     [("p0", "elements being committed", "basic_store"), ("p1", "elements inserted since", "basic_store")], ["data file", "key file"],
     "per-element must-execute analysis of the container loops (typestate + symbolic record content)",
     "All paths; container iteration visits each element once (C35 and the standard library are trusted).")
prop("C05", "Splits and spills never lose, duplicate or overfill bucket entries",
     "When a bucket is split or becomes full, every one of its entries, including those in its chain of spill records, ends up in exactly one of the resulting buckets or spill records; "
     "an entry is added to a bucket only when there is room, the new bucket starts empty, and a spill record is read only after it has been written out.",
     ["inputs", "histories"], "every bucket content, every chain length, every state of the write buffer",
     "the tests rarely build chains longer than one spill record, and a chain record still in the bulk write buffer needs a precise buffer position",
     [I + "basic_store.ipp", D + "bucket.hpp"],
     [("split", "basic_store::split"), ("spill to data file when full", "detail::maybe_spill")], [], ["key file", "data file"],
     "typestate over the inlined commit with per-bucket room/visited/exhausted facts",
     "All paths of commit's split loops; bucket_t's own methods are decided by C20 and C21.")
prop("C06", "Every component addresses the same bucket for the same hash",
     "For the same hash, bucket count and modulus, insert, fetch, commit, recovery, key file regeneration and verification select the same bucket, and bucket i is always stored in the "
     "key file at block i+1; the count and modulus used are those that describe the bucket set being accessed, and the modulus is the smallest power of two not below the count.",
     ["inputs", "histories"], "every hash and bucket count, at every point of the linear hashing growth",
     "a disagreement shows only for hashes in the part of the table that is being split",
     [I + "basic_store.ipp", D + "format.hpp", I + "rekey.ipp", I + "verify.ipp", I + "recover.ipp"],
     [("bucket_index", "detail/format.hpp"), ("ceil_pow2", "detail/format.hpp")], [("buckets_, modulus_", "published table size", "basic_store")], ["key file"],
     "value-number matching of every bucket address and hash selection against the addressing scheme; abstract interpretation (intervals and known bits) of the modulus computation",
     "All occurrences in the analysed entry points; the modulus computation for every argument.")
# ---------------------------------------------------------------- concurrency
prop("C07", "New table state is published to readers atomically",
     "The new bucket set, bucket count, modulus and the removal of the committed elements from memory become visible to readers in one exclusive critical section, "
     "and the bucket cache is dropped only after all its buckets are in the key file: at no time can a reader miss an element that was inserted before.",
     ["schedules"], "every interleaving of readers with a commit",
     "the window is a few instructions; tests run fetches in few threads and would need the exact preemption",
     [I + "basic_store.ipp"], [("publication section", "basic_store::commit")], [("m_", "guards published state", "basic_store")], ["fetch"],
     "typestate over the lock-protected publication section", "All paths; sequential reasoning per thread under the locks.")
prop("C08", "Readers never see a key file bucket while it is overwritten",
     "A reader that goes to the key file registers itself, before releasing the shared lock under which it looked up the in-memory tables, with the current generation, and unregisters when done; "
     "a commit waits, after publishing and before its first key file write, until no reader of an older generation remains, and the generation barrier itself counts readers correctly and never lets a commit through early.",
     ["schedules"], "every interleaving of readers with a commit",
     "needs a reader preempted between lookup and disk read across a complete commit",
     [I + "basic_store.ipp", D + "gentex.hpp"], [("gentex start/finish", "detail/gentex.hpp"), ("genlock", "basic_store::fetch / insert")], [("cur_, prev_, gen_", "reader counts", "gentex_t")], ["fetch"],
     "typestate on generation locks; summary of each way through the barrier's and the lock object's methods checked against the counting protocol",
     "All paths of fetch, insert, commit and of the methods of gentex and genlock.")
prop("C09", "No I/O error is dropped",
     "When a file operation reports an error, the operation that issued it stops changing files (apart from cleaning up files it created) and reports that error to its caller; "
     "no operation reports success after one of its file operations failed.",
     ["fault_sequences", "inputs"], "every file operation of every entry point failing at every time",
     "the fault-injecting test file covers some call sites of the store and recovery, and never rekey, visit, verify and the open and close paths together",
     ["include/nudb/"], [("if(ec) return", "every entry point")], [], ["error_code"],
     "error-code dataflow (pending error typestate) over every entry point, all calls inlined",
     "All paths; the File concept's contract: a failing call sets its error_code argument.")
prop("C10", "A failed commit stops the store, is reported, and keeps the log for recovery",
     "After a commit fails, every later insert and fetch reports that error and changes nothing, no further commit touches the files, and close reports it and leaves the log file in place so that "
     "recovery restores the last committed state.",
     ["fault_sequences", "histories"], "every failing operation in the background commit followed by every operation order",
     "the tests stop at the first error and recover; they do not look at what the failed store still does",
     [I + "basic_store.ipp"], [("ec_ and ecb_", "basic_store::flush, close, insert, fetch")], [("ec_", "the error", "basic_store"), ("ecb_", "error flag readers test", "basic_store")], ["error_code", "log file"],
     "typestate over flush, close, insert and fetch with the stored error tracked", "All paths.")
prop("C11", "No key is inserted twice",
     "insert adds an element only after it has established, in one serialized section, that the key is in neither in-memory table nor on disk (all entries with the key's hash in the whole bucket chain), "
     "and reports that the key exists otherwise; it adds exactly the key, value and size it was given under the hash of that key.",
     ["schedules", "inputs", "histories"], "every pair of concurrent inserts, every place where the earlier copy may reside",
     "the tests insert a duplicate only from the same thread, right after the original",
     [I + "basic_store.ipp"], [("u_ serializes inserts", "basic_store::insert"), ("exists walks the chain", "basic_store::exists")], [("u_", "insert lock", "basic_store")], ["insert"],
     "must-precede analysis over insert's CFG with loop-exit conditions", "All paths.")
prop("C12", "State shared between threads is accessed only under its lock",
     "Every write to the store's in-memory tables, table size and rate accounting happens with the exclusive lock held, every read by another thread with at least the shared lock held, and inserts are serialized by a lock of their own.",
     ["schedules"], "every interleaving of application threads and the background flush",
     "data races do not change single-threaded results", [I + "basic_store.ipp", I + "context.ipp"], [("m_, u_", "basic_store")], [("p0, p1, c1, buckets_, modulus_", "shared tables", "basic_store")], [],
     "lockset analysis over all entry points", "All accesses in the analysed entry points by field; fields read-only after open are exempt.")
prop("C13", "Locks are released on every path and never held across commit I/O",
     "Every operation releases every lock and generation registration it took, on success, error and exception paths; locks are taken in one global order and never twice; "
     "the exclusive lock that blocks readers is not held while files are accessed or while waiting for readers.",
     ["schedules", "fault_sequences"], "every path and interleaving", "deadlocks need two threads at two specific points",
     [I + "basic_store.ipp", D + "gentex.hpp"], [("unique_lock / shared_lock", "basic_store")], [("m_, u_, g_", "locks", "basic_store")], [],
     "lock typestate over all entry points", "All non-exceptional and exceptional paths of the analysed entry points.")
# ---------------------------------------------------------------- recovery
prop("C14", "Recovery restores the pre-commit state and can be repeated",
     "Recovery writes every bucket image of the log back to its place in the key file and truncates the key file and the data file to the sizes in the log header, syncs both, and only then "
     "discards the log; a crash at any point of recovery leaves a state from which recovery still restores.",
     ["crash_points", "fault_sequences", "inputs"], "every crash point in recovery, every valid log",
     "recovery tests fail single calls; they never crash between two durable writes and never re-run after a crash in the last step",
     [I + "recover.ipp"], [("restore, truncate, sync, clear log", "recover")], [], ["key file", "data file", "log file"],
     "typestate over recover's CFG", "All paths of recover.")
prop("C15", "Recovery changes files only under a valid matching log",
     "Recovery modifies the data or key file only when the log header is complete and agrees with both files' headers; a torn header means nothing was changed and only the log is discarded; "
     "a log record is applied only if it is complete and names a bucket that exists in the restored key file, and a torn tail of the log ends the restore without error.",
     ["inputs", "crash_points"], "every content of the log, key and data files",
     "the test logs are produced by one library version and are torn at few offsets",
     [I + "recover.ipp", D + "format.hpp"], [("verify headers", "recover"), ("record checks", "recover")], [], ["key file", "data file"],
     "must-validate dataflow (every mutation dominated by its checks)", "All paths of recover.")
prop("C16", "Regenerating a key file is crash safe",
     "Key file regeneration makes a rollback log durable before it appends to the data file, writes the key file header before the buckets are trusted, makes data and key files durable before it discards the log, and "
     "if interrupted leaves a log from which recovery removes the partial result.",
     ["crash_points", "fault_sequences"], "every crash point and failing operation in rekey",
     FILES_TEST, [I + "rekey.ipp", I + "recover.ipp"], [("log first, log last", "rekey")], [], ["data file", "key file", "log file"],
     "typestate over rekey's CFG; file size sets over the recovery entry", "All paths of rekey; recovery for every size of a partial key file.")
prop("C37", "A regenerated key file indexes every data record exactly once",
     "On success, rekey has entered every data record between the data file header and the original end of the data file exactly once into the bucket its key's hash selects, "
     "with the record's own offset, size and hash; every bucket of the new key file starts out empty and is written once complete, a full bucket is spilled before it is entered into, and spill records left in the data file are skipped.",
     ["inputs"], "every data file, item count and buffer size (number of passes)",
     "tests regenerate small files in a single pass, so section boundaries, the last bucket and spilling are barely exercised",
     [I + "rekey.ipp", D + "bucket.hpp"], [("scan and insertion loop", "rekey"), ("bucket_index, maybe_spill", "detail/bucket.hpp")],
     [("b0, b1", "bucket section held in memory", "rekey")], ["key file"],
     "per-record must-execute analysis with symbolic section arithmetic (counted loops, bucket index provenance) over rekey's CFG",
     "All paths of rekey, every number of passes; the number of buckets is not checked against the item count.")
prop("C17", "Creation is exclusive and cleans up",
     "create and rekey never overwrite an existing file; create removes exactly the files it created itself when it fails and reports success only if all of them are complete and durable; invalid parameters are rejected before any file exists.",
     ["fault_sequences", "inputs"], "every subset of pre-existing files, every failing operation",
     "the create tests start from an empty directory", [I + "create.ipp", I + "rekey.ipp"], [("create_new and erase on fail", "create")], [], ["file system"],
     "typestate per file path over create and rekey", "All paths.")
prop("C18", "open accepts only a consistent set of files",
     "open succeeds only if both headers are valid, agree with each other and match the requested hash function, and no log file with content remains without having been recovered; "
     "the geometry it then uses (key size, hash seed, bucket size, capacity, number of buckets - the whole blocks behind the key file header -, modulus, split threshold) is derived from those headers, without overflow or division by zero for any header content.",
     ["inputs"], "every content of the three files", "tests open well-formed files and a handful of single-field corruptions",
     [I + "basic_store.ipp", D + "format.hpp"], [("verify functions", "detail/format.hpp")], [], ["open"],
     "must-validate dataflow (required checks on every success path) + value provenance", "All success paths of open and the header checks.")
# ---------------------------------------------------------------- format
prop("C19", "File headers decode to exactly what was encoded and every check is enforced",
     "Each header field is stored big-endian at its documented offset and width and read back from the same place into the same field; header sizes match the documented format; "
     "header validation rejects every wrong type, version, key size, salt/pepper, block size, load factor and mismatch between the files.",
     ["inputs"], "every header value and every corrupted header", "round-trip tests cannot see a symmetric change of the format, and sample few field values",
     [D + "format.hpp", D + "field.hpp", D + "stream.hpp"], [("read/write of headers", "detail/format.hpp"), ("verify", "detail/format.hpp")], [], ["file bytes"],
     "byte-level dataflow of encoders and decoders against the documented layout; must-check table for validation", "Every path of the readers, writers and verify functions of the three headers.")
prop("C20", "Bucket, data, spill and log records decode to exactly what was encoded",
     "The byte layout of bucket entries, bucket headers, spill records, data records and log records written by any component is the layout every reader of that record uses: same offsets, widths, byte order and record sizes; inserting, erasing, spilling and looking up entries keep every other entry, the order by hash, and the stored count and spill offset.",
     ["inputs"], "every entry value, bucket fill and record size", "tests never use offsets or hashes near the 48-bit limit and use symmetric readers and writers",
     [D + "bucket.hpp", D + "format.hpp", D + "field.hpp"], [("bucket_t", "detail/bucket.hpp"), ("field", "detail/field.hpp")], [], ["file bytes"],
     "dataflow of memory cells at byte level through encoders and decoders against the documented layout; interval invariant of the binary search", "Every path of the bucket and spill record methods; data and log records at their writers and readers (C07, C12, C14 rules use the same layout).")
prop("C21", "Corrupt counts and sizes never cause out-of-bounds access",
     "Whatever the files contain, no operation accesses memory outside the buffer it uses: a count, size or index read from a file is bounded by the capacity of what it refers to before it is used "
     "(bucket entry counts by the block, entry positions by the count, record sizes by the buffer made for them, bucket numbers by the section or key file they select), a bucket whose count exceeds its block's capacity is rejected, "
     "no entry is inserted into a full bucket, and recovery applies no log record whose index or spill offset lies outside the files.",
     ["inputs"], "every file content", "the tests corrupt few fields, and an access slightly beyond a heap buffer goes unnoticed", [D + "bucket.hpp", I + "basic_store.ipp", I + "recover.ipp", I + "rekey.ipp", I + "verify.ipp", I + "visit.ipp", D + "format.hpp"],
     [("size checks in bucket_t::read", "detail/bucket.hpp"), ("section and index checks", "impl/verify.ipp, impl/rekey.ipp, impl/recover.ipp")], [], ["memory"],
     "bounds analysis: for each access to memory of known size, offset + length <= size from dominating conditions over linear forms; pre- and postconditions of the bucket methods, typestate of buckets at their callers",
     "All loads, stores, copies, file transfers, hash and callback arguments whose address lies in a local, new[], buffer, reader, writer or arena region, in ten entry points; all bucket methods; all callers of at, insert, erase.")
prop("C22", "The data file is append-only",
     "Once a record has been committed its bytes in the data file never change: no operation writes below the end of the data file as it was when the operation started, and only recovery shortens the file, to a size a log header recorded.",
     ["histories", "crash_points"], "every sequence of operations", "tests look at values, not at rewritten bytes",
     ["include/nudb/"], [("append writers", "bulk_writer")], [], ["data file"],
     "who-may-write analysis of every data file mutation with value provenance of the offset", "All data file mutations reachable from the entry points; that a buffered writer writes only behind its start offset is C34.")
prop("C23", "Read-only operations never modify a database",
     "fetch, visit and verify never write, truncate, create or delete any file, and visit and verify open the database files without write access.",
     ["inputs", "histories"], "every database, valid or corrupt", "tests do not compare files before and after",
     ["include/nudb/"], [("file modes", "visit, verify")], [], ["file system"],
     "effect analysis of the call graph", "All paths.")
prop("C24", "verify reports success only for a consistent database",
     "verify reports success only if every data record is referred to, with its offset and its key's hash, by an entry in the chain of the bucket its key belongs to, no two data records have the same key, every entry of every bucket and of its spill chain refers to a data record with that size and hash, no record is truncated, every spill record has a valid size, and the headers are valid and agree; this holds for both the normal and the fast algorithm.",
     ["inputs"], "every corrupted database and every buffer size", "the tests verify intact databases only",
     [I + "verify.ipp"], [("verify_normal, verify_fast", "impl/verify.ipp")], [], ["error_code"],
     "must-check dataflow: success is only reachable through every check, for every record, bucket and entry",
     "Both algorithms; that a corrupt chain with a cycle makes verify loop is not decided; the statistics in verify_info are C41's.")
prop("C25", "visit delivers every value exactly once",
     "visit calls the callback once for every data record in the file with that record's complete key and value, skips spill records, stops at the first error, including one set by the callback, and reports success only at the end of the file.",
     ["inputs", "fault_sequences"], "every data file", "small files, callback never fails",
     [I + "visit.ipp"], [("record loop", "visit")], [], ["callback"],
     "per-record must-execute analysis of the loop", "All paths of visit.")
prop("C26", "fetch returns the value of exactly the requested key",
     "fetch invokes the callback exactly once, with the complete value stored with a key equal to the requested key in all its bytes, or reports an error; it reports that the key is absent only after both in-memory tables, the bucket cache and the whole on-disk chain have been searched.",
     ["inputs", "schedules", "histories"], "every key set, including equal hashes",
     "hash collisions of 48 bits do not occur in tests, so the key comparison and chain walk are unexercised",
     [I + "basic_store.ipp"], [("fetch by bucket chain", "basic_store::fetch")], [], ["callback"],
     "must-precede analysis over fetch's CFG", "All paths of fetch.")
prop("C27", "No memory owned by the store escapes its protection",
     "Values kept in memory are handed to the callback only while the lock that keeps them alive is held, inserted keys and values are copied before insert returns, and no pointer into a shared cache or pool is used after its lock is released.",
     ["schedules"], "every interleaving of callbacks with commits", "use after free needs a commit inside the callback window",
     [I + "basic_store.ipp", D + "pool.hpp", D + "arena.hpp"], [("callback under shared lock", "basic_store::fetch"), ("copy into arena", "pool_t::insert")], [], ["callback"],
     "borrow typestate: pool- and cache-derived pointers are live only under the lock", "All paths of fetch, insert; pool insertion.")
# ---------------------------------------------------------------- platform layer
prop("C28", "POSIX transfers are complete or reported",
     "A read or write at an offset transfers all requested bytes, continuing after partial transfers and interruptions at the right position, or reports an error; reading past the end reports a short read, and every failing system call is reported with its error.",
     ["fault_sequences"], "every sequence of partial transfers, signals and failures", "the kernel in the tests always transfers everything",
     [I + "posix_file.ipp"], [("pread/pwrite loops", "posix_file")], [], ["system calls"],
     "loop-invariant and error-flow check on the system call sites", "All paths of posix_file.")
prop("C29", "File descriptors are owned exactly once",
     "Each opened descriptor is closed exactly once: on close, destruction, or move assignment, ownership moves on move, a failed open leaves the object closed, and a closed object is never used for a system call on a stale descriptor.",
     ["programs", "fault_sequences"], "every sequence of object operations", "double close is invisible in single-threaded tests",
     [I + "posix_file.ipp"], [("fd_ sentinel", "posix_file")], [("fd_", "-1 when closed", "posix_file")], ["system calls"],
     "typestate on the descriptor field", "All methods of posix_file.")
prop("C30", "A store is open exactly between a successful open and its close",
     "open either succeeds completely or leaves the store closed and unregistered; close stops background work, commits everything inserted, releases the files and then deletes the log, and does nothing when not open; a destroyed store commits what was inserted.",
     ["histories", "fault_sequences"], "every order of open, insert, close and destruction with failures", "tests follow one order",
     [I + "basic_store.ipp"], [("open_", "basic_store::open/close")], [], ["is_open"],
     "typestate over open, close and the destructor", "All paths.")
prop("C31", "The command line tool's exit status tells the truth",
     "Each command of the command line tool exits with failure if the operation it ran reported an error, and with success only after it completed.",
     ["inputs", "fault_sequences"], "every command and failure", "the tool has no tests", ["tools/nudb.cpp"], [("exit codes", "tools/nudb.cpp")], [], ["exit status"],
     "error-flow analysis of the tool", "All command functions.")
prop("C32", "The same bytes always hash to the same value",
     "The hash of a key depends only on its bytes, its length and the salt: not on the address or alignment of the buffer, and every byte of the key and the salt take part; the stored pepper is the hash of the salt under the same function.",
     ["inputs"], "every key length and buffer alignment", "tests use aligned keys of few lengths", [D + "xxhash.hpp", "include/nudb/xxhasher.hpp", D + "format.hpp"], [("XXH64", "detail/xxhash.hpp")], [], ["hash"],
     "cursor typestate over the input loads, address-dependence type system, equality of the aligned and unaligned code by simulation, must-flow of every loaded byte to the result", "All paths of the hash function on a little-endian target; which bytes are consumed and that no operation discards them, not the quality of the mixing nor the published constants.")
prop("C33", "The background context flushes every open store until it is stopped",
     "Every registered store is flushed by the context when its time has come, without holding the context's lock, stores leave the context before they are closed, and stopping the context joins its threads; a store removed from the context is never flushed afterwards.",
     ["schedules"], "every interleaving of open, close and the flush thread", "tests use one store and never stop and restart a context", [I + "context.ipp"], [("context run loop", "impl/context.ipp")], [("open_, waiting_, flushing_", "store lists", "context")], [],
     "lock and list typestate over the context's methods", "All paths.")
prop("C34", "Buffered bulk I/O is transparent",
     "A bulk writer writes exactly the prepared bytes, in order, at contiguous offsets starting where it was told, and nothing is written twice or at another place, or lost without an error being reported, when a flush fails or the buffer is exactly full; until it reports an error a bulk reader delivers exactly the range's bytes in order, without reading beyond the range or its buffer, and it reports a short read exactly when the range has too few bytes left.",
     ["inputs", "fault_sequences"], "every buffer size and record size", "boundaries where a record exactly fills the buffer are not hit", [D + "bulkio.hpp"], [("bulk_writer, bulk_reader", "detail/bulkio.hpp")], [], ["file bytes"],
     "path-sensitive copy propagation over the methods' memory cells with linear relations from the branch conditions", "All paths of both classes for any state of the object; sizes and offsets are taken not to wrap around.")
prop("C35", "Memory pools and caches keep every element intact",
     "The arena returns disjoint, aligned, sufficiently large pieces of memory and frees each of its blocks exactly once; the pool stores a complete copy of each key and value, orders elements by all bytes of the key, finds an element by exact key and keeps the sum of the value sizes; the bucket cache keeps one private, block-sized copy per index (an empty bucket when it creates one); swapping or moving pools or caches takes all elements and their parameters along, and clear empties them.",
     ["inputs", "histories"], "every sequence of element sizes", "overlap needs unusual sizes", [D + "arena.hpp", D + "pool.hpp", D + "cache.hpp"], [("arena_t", "detail/arena.hpp")], [], ["memory"],
     "path-sensitive copy propagation over the methods' memory cells with linear relations from the branch conditions", "All paths of the methods for any state of the objects; sizes are taken not to wrap around; std::map and std::unordered_map are taken to work.")
prop("C36", "Custom file and hash types and their arguments are honoured everywhere",
     "Every database function uses the File and Hasher it was instantiated with for every file it opens, creates or erases, and forwards the constructor arguments; none falls back to the default types.",
     ["programs"], "every instantiation", "tests instantiate few combinations", ["include/nudb/"], [("File and Hasher template parameters", "all entry points")], [], [],
     "type-level witness: instrumented File/Hasher types; every reachable file effect resolves to them", "All reachable calls of the instantiations.")
prop("C38", "Nothing depends on memory that was never written",
     "No operation reads, compares, writes to a file or branches on a byte of a local object or local buffer that has not been written before, and every member of an object has a value once the object is constructed (members that describe the open database: once it is open); in particular reserved bytes of every header are written as zeroes.",
     ["inputs"], "every path of every operation",
     "uninitialised memory is usually zero or happens to hold a harmless value in a test", [I + "verify.ipp", I + "basic_store.ipp", I + "create.ipp", I + "rekey.ipp", D + "format.hpp", D + "bucket.hpp"],
     [("header writers", "detail/format.hpp"), ("working variables", "impl/verify.ipp, impl/rekey.ipp, impl/recover.ipp")], [], ["memory", "file bytes"],
     "byte-level must-initialise dataflow over every local object at several inlining levels and over every constructor; the compiler's definite-initialisation analysis over all instantiations",
     "Every local object whose address does not escape to an opaque call before the read; the plain members of every class after construction (of the store after open); heap memory is not tracked.")
prop("C39", "Error codes tell failures apart",
     "Every error has a value different from success and a message of its own, an error code made from an enumerator carries that enumerator and the library's category, and a code compares equal to an enumerator only if both the value and the category are the same.",
     ["inputs"], "every pair of error codes, conditions and categories",
     "tests compare a code with the enumerator it was made from, never codes of another category with the same value", ["include/nudb/error.hpp", I + "error.ipp"],
     [("error category", "impl/error.ipp"), ("make_error_code", "impl/error.ipp")], [], ["error_code"],
     "constant propagation of message() over every enumerator; per-path summaries of the category's comparison and of the makers",
     "Every enumerator and every path of the category's methods.")
prop("C40", "The default hash is XXH64",
     "The default hasher computes the published XXH64 of its input with the salt as seed, for every input and length, and the hash stored for a key is the upper 48 bits of its hash function's value: databases stay readable across builds and versions.",
     ["inputs"], "every input, length and seed",
     "no test compares the hash with published values; a database written and read by the same build works with any function", [D + "xxhash.hpp", "include/nudb/xxhasher.hpp", D + "format.hpp"],
     [("XXH64", "detail/xxhash.hpp"), ("make_hash", "detail/format.hpp")], [], ["hash"],
     "product of the function with an automaton of the published algorithm: cursor analysis decides which piece is consumed, the carried values are compared as normal forms of arithmetic modulo 2^64 (value numbering) at every loop head and return",
     "Every input on a little-endian target; if the code is restructured so that its cursor cannot be followed, the evidence says so and nothing is decided.")
prop("C41", "The statistics verify reports are those of the files",
     "When verify succeeds, verify_info describes the files, for both algorithms and every buffer size: identifiers, sizes and parameters are those of the headers and files; value_count and value_bytes include every data record once and nothing else; key_count includes the entries of every bucket and its chain once; spill_count and spill_bytes include every spill record in a chain once, spill_count_tot and spill_bytes_tot every spill record in the data file once with its own size; every bucket is counted once in the histogram under the number of its spill records; every sum starts at zero; spill records left behind by a key file with another block size are counted, not rejected; and the ratios are computed from the final numbers.",
     ["inputs"], "every database, in one or several passes", "the tests look at few of the numbers, for small databases that need one pass",
     [I + "verify.ipp", "include/nudb/verify.hpp"], [("verify_normal, verify_fast", "impl/verify.ipp")], [], ["verify_info"],
     "counting typestate over the inlined verify: every addition pays for one thing examined, everything examined is paid for once (C24's automaton identifies what is examined)",
     "Both algorithms. Of the ratios, numerator and denominator are compared where the division is recognised; the number of fetches behind avg_fetch and the progress callback's numbers are not decided.")
prop("C42", "A lookup reads no more than its bucket chain",
     "A fetch, and the search insert makes for an existing key, accesses no file when the key is found in memory; otherwise it reads the key file at most once, and only when no table in memory holds the bucket, one spill record for every link it follows and one data record, no longer than the record itself, for every entry whose stored hash equals the key's. It ends as soon as the key is found, and it reads nothing else and writes nothing.",
     ["inputs", "histories"], "every key set, chain and outcome of the lookups in memory",
     "tests check the value fetched, not the reads made for it; the cost shows only in hash collisions, spilled buckets and keys held in memory",
     [I + "basic_store.ipp", "README.md"], [("fetch, exists", "impl/basic_store.ipp")], [], ["file reads"],
     "budget typestate over the inlined lookups: every file access is paid for by a miss in memory, a link followed or an entry whose hash was compared equal",
     "The number of links and of colliding entries is a matter of the hash's distribution (N01). The length of a bucket's own read is decided by C20.")
prop("C43", "Generated salts and uids are unpredictable",
     "make_salt and make_uid can return every value of 64 bits: the value is drawn from the system's random device and no step between the device and the result narrows it, such as a fixed or short seed, a truncation or a reused draw. A key file written by rekey gets a salt that was generated, not one taken over from somewhere.",
     ["inputs"], "every path of the generators, every state of the random device",
     "a test sees a few values and cannot tell 2^32 possible ones from 2^64, nor a fixed seed from a random one unless it compares runs",
     [I + "create.ipp", I + "rekey.ipp", "include/nudb/create.hpp"], [("make_uid, make_salt", "impl/create.ipp"), ("salt of the new key file", "impl/rekey.ipp")], [], ["make_salt", "make_uid", "salt in the key file header"],
     "information flow: every bit of the result as a sum of random bits, bounded by the rank of those sums and by the state of the generators passed through",
     "An upper bound of the number of values, so a generator may be worse than the bound; the quality of the device and of the standard library's distributions is trusted.")
prop("C44", "Reported progress never goes back",
     "The progress reported by visit, verify and rekey starts with no work done, never goes back, whatever the number of passes over the data file, and always refers to the same total; a total that is only an estimate is never exceeded.",
     ["inputs"], "every database and buffer size, hence every number of passes",
     "tests pass a progress object that ignores its arguments, and several passes need a buffer smaller than the key file",
     [I + "visit.ipp", I + "verify.ipp", I + "rekey.ipp", "doc/types/Progress.qbk"], [("progress in visit, verify, rekey", "impl/*.ipp")], [], ["progress callback"],
     "relational dataflow: the last amount reported is bounded by terms over the current values; at every loop edge the bounds are carried over to the next iteration's values",
     "Arithmetic is taken not to wrap. That a total computed exactly is not exceeded is not decided.")
prop("C45", "The table grows with its load",
     "The load factor recorded in a database is the one asked for when it was created or rekeyed. A rekeyed table has the buckets its items need at that load factor. When records are committed, every record inserted counts exactly once towards the load, one bucket is added exactly when the load reaches the threshold (load factor times bucket capacity) and the threshold is then taken away once, across commits; a store that was just opened is below its threshold.",
     ["inputs", "histories"], "every load factor, block size and sequence of insertions and commits",
     "a table that grows too slowly or not at all answers every request correctly, only with ever longer chains",
     [I + "basic_store.ipp", I + "create.ipp", I + "rekey.ipp", "README.md"],
     [("frac_, thresh_ in open and commit", "basic_store"), ("load_factor", "create.ipp, rekey.ipp"), ("buckets", "rekey.ipp")], [],
     ["File operations"],
     "typestate dataflow over the commit with the load as (elements added, thresholds taken away) through the field and any local copy; value comparison of the recorded factor, bucket count and threshold",
     "Whether the threshold itself counts as reached, and where below it an opened store starts, is left open. Floating point rounding is not considered.")
prop("N01", "Fetch costs at most one or two reads", "A fetch needs one key file read and one data file read for almost all keys, independently of the database size.",
     ["inputs"], "every database size", "a statistical bound", ["README.md"], [("linear hashing", "basic_store")],
     na="A distribution over hash values: the bound is statistical, no path property decides it. What a lookup reads given its chain is C42.")
prop("N02", "Operations are linearizable", "Concurrent fetch and insert calls behave as if executed one after another in an order compatible with real time.",
     ["schedules", "histories"], "every concurrent history", "tests run few threads", [I + "basic_store.ipp"], [("m_, u_, g_", "basic_store")],
     na="Quantifies over whole concurrent histories; the static part (publication, locks, generations, lookup order) is claimed as C07, C08, C11, C12 and C26.")
prop("N03", "Inserts are throttled to the flush rate", "An insert is delayed so that memory stays near the configured burst size when the disk cannot keep up.",
     ["schedules", "inputs"], "every insert rate", "needs timing", [I + "basic_store.ipp"], [("rate_, burst_", "basic_store::insert")],
     na="A runtime rate: the delay and its effect depend on measured time.")
prop("N05", "Torn sector writes are survived", "A power failure that tears a single sector write leaves the database recoverable.",
     ["crash_points"], "every torn write", "needs hardware", ["doc/"], [("log", "basic_store::commit")],
     na="Depends on device behaviour below the File concept; ordering and completeness on this side are claimed as C01-C03, C14 and C16.")


def built():
    """property ids that have a rule"""
    import importlib
    import pkgutil
    import sys
    sys.path.insert(0, HERE)
    import vp.rules
    from vp.rules import common
    for m in pkgutil.iter_modules(vp.rules.__path__):
        importlib.import_module("vp.rules." + m.name)
    return set(common.RULES)


def main():
    have = built()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["row"]["id"]
        if p["na"]:
            na.append({"property": i, "reason": p["na"]})
        elif i in have:
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                           "thorough_cmd": f"python3 check.py {i} --tier thorough",
                           "technique": "static analysis: " + p["technique"], "level": "other",
                           "level_note": p["note"] + " Trusts the clang front end, the IR extractor/inliner and the rule; "
                           "thorough repeats it for C++11, C++14, C++17 and with assertions on."})
        else:
            na.append({"property": i, "reason": "No rule built yet."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "All checks: python3 check.py <id>. See DESIGN.md."}, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()
