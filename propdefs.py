"""Texts of the properties and of the checks that decide them."""


def define(prop, N):
    # ------------------------------------------------------------ components
    prop("C01", "Buffered (POSIX) file operations behave like a byte array on disk",
         """Through the default file operations, every positioned write or append that reports success is what later reads of that range
         return, with holes reading as zeros, offsets beyond 4 GiB kept apart, and the reported end of file, existence and truncation
         results matching the file's real contents. A failure of the operating system is reported by the call that met it, a short
         transfer is completed or reported, and sync reports success only if everything written before is on stable storage.""",
         ["inputs", "histories", "fault_sequences"],
         "all sequences of open, read, write, append, truncate, remove, sync and close over all offsets, sizes and failing system calls",
         "fileops_test does a handful of small sequential writes and never injects a failing or short system call.",
         ["src/fileops_posix.cc", "src/fileops_posix.h", "src/fileops_base.h"],
         [("pread/pwrite with retry", "src/fileops_posix.cc"), ("ftruncate/fsync/eof", "src/fileops_posix.cc")],
         "model-based random operation sequences with injected I/O faults, shrinking",
         "Operation sequences over two files and four handles against a sparse byte model and the real file; system calls are wrapped at link time.")
    prop("C02", "Direct-I/O files hold exactly the appended bytes across flush, sync and reopen",
         """Through the direct I/O file operations, any sequence of appends of any size, interleaved with flush, sync, truncation, unaligned
         reads (also by other instances with other buffer sizes) and re-opening, reads back exactly the appended bytes, the reported end of
         file equals their total, and what sync acknowledged is on stable storage. Failed system calls are reported and never change bytes
         acknowledged earlier.""",
         ["inputs", "histories", "fault_sequences", "configurations"],
         "all append sizes and alignments, buffer and alignment settings, offsets beyond 2 and 4 GiB, reopen points and injected faults",
         "fileops_directio_test appends a few fixed sizes with one buffer configuration.",
         ["src/fileops_directio.cc", "src/fileops_directio.h"],
         [("aligned append buffer and padding", "src/fileops_directio.cc"), ("unaligned pread through an aligned buffer", "src/fileops_directio.cc")],
         "model-based random operation sequences with injected I/O faults, shrinking",
         "Operation sequences against a sparse byte model on tmpfs with O_DIRECT, several instances and buffer configurations.")
    prop("C03", "CRC32 and murmur hashes equal their mathematical definition on every input",
         """Every checksum and hash entry point returns the value of its published definition (CRC-32, CRC-32C where provided, MurmurHash3 of
         32 and 128 bits, and the helpers built on them) for every byte string, alignment, length, seed and previous value. Checksums can be
         computed piecewise over any split with the same result, and a changed bit changes the checksum.""",
         ["inputs"], "all byte strings, lengths from 0, alignments, seeds, previous values and split points",
         "crc32_test checks a few strings at one alignment.",
         ["src/crc32.cc", "src/crc32.h", "src/murmurhash3.cc", "src/murmurhash3.h"],
         [("slicing-by-8 CRC", "src/crc32.cc"), ("block and tail mixing", "src/murmurhash3.cc")],
         "differential property-based testing against bit-by-bit reference definitions",
         "Random strings (0 to 200,000 bytes, all alignments) hashed by every function and by independent reference implementations.")
    prop("C04", "Byte buffers, key-values and records keep contents and ownership",
         """Buffers, key-value pairs and records hold exactly the bytes they were given through any sequence of allocation, copy, clone, move,
         resize, clear and free; ordering and equality of buffers are those of unsigned byte strings with a shorter prefix first. Nothing is
         freed twice, leaked from an owner or modified through a borrowed reference.""",
         ["inputs", "histories"], "all sequences of buffer operations over all contents and lengths, including empty buffers",
         "keyvalue_test runs one sequence of a few calls.",
         ["include/libjungle/sized_buf.h", "include/libjungle/keyvalue.h", "include/libjungle/record.h"],
         [("need_to_free flag", "include/libjungle/sized_buf.h"), ("copyTo/moveTo/clone", "include/libjungle/keyvalue.h, record.h")],
         "model-based random operation sequences under AddressSanitizer, shrinking",
         "Sequences over five buffers against std::string models; ownership errors observed by AddressSanitizer and allocation balance.")
    prop("C05", "Serialized integers, strings and buffers round-trip and never overrun",
         """Whatever a sequence of typed writes puts into a serialization buffer or file, a reader of the same sequence gets back exactly, in
         the documented little-endian layout, with the same positions and byte counts. Reads past the end report an error instead of
         returning data, and a growable buffer grows while a fixed one refuses to be overrun.""",
         ["inputs", "histories", "fault_sequences"], "all typed write/read sequences, positions, buffer sizes and short or failing file reads",
         "No unit test covers the serializer on its own; it is only used with well-formed manifests.",
         ["src/internal_helper.cc", "src/internal_helper.h", "src/fileops_base.h"],
         [("RwSerializer", "src/internal_helper.cc"), ("endian helpers", "src/internal_helper.h")],
         "round-trip property-based testing against a byte model, with truncated inputs and faults",
         "Random typed sequences over memory and files, truncated copies, injected read/write faults.")
    prop("C06", "The concurrent skip list is a correct ordered set under any interleaving",
         """The skip list behaves as an ordered multiset: insertion, exact, smaller-than and greater-than lookup, stepping in both directions,
         erasure and size give the results of the abstract set for every sequence of calls. Under concurrent insertions, erasures and
         traversals, no key that is present throughout is missed or returned twice, order is never violated, each key is won by exactly one
         unique inserter or eraser, and a node is freed only when nobody holds it.""",
         ["schedules", "histories"], "all sequences of calls and all interleavings of several threads on shared and private keys",
         "There is no skip list unit test; memtable_test exercises a few single-threaded insertions.",
         ["src/skiplist.cc", "src/skiplist.h"],
         [("being_modified/is_fully_linked/removed flags and reference counts", "src/skiplist.cc"), ("level locking in insert and erase", "src/skiplist.cc")],
         "model-based sequences plus randomized multi-threaded histories under AddressSanitizer",
         "Sequential histories against a multimap, and multi-threaded histories with jitter checked for set invariants; schedules are sampled, not enumerated.")
    prop("C07", "The AVL tree stays ordered, balanced and complete",
         """After every insertion and removal the tree holds exactly the inserted and not removed elements, in comparator order, with parent
         links consistent and the heights of sibling subtrees differing by at most one. Exact, smaller and greater searches and first, last,
         next and previous give the results of an ordered set.""",
         ["histories"], "all sequences of insertions, removals and searches over all key orders",
         "No unit test uses the tree directly.",
         ["src/avltree.cc", "src/avltree.h"], [("rotations and balance factors", "src/avltree.cc")],
         "model-based random operation sequences, structural invariants, shrinking",
         "Sequences against std::map with structural checks after each step.")
    prop("C08", "Bloom filters, bit maps and lookup boosters never lose a member",
         """A Bloom filter answers 'maybe' for every key added to it, also after export and import and for hash pairs computed elsewhere, and its
         false positive rate is near the one its size promises. A concurrent bit map returns every bit as last set even when neighbouring bits are set by other threads, and a lookup booster
         returns only the entry most recently stored (highest sequence number) for the same hash.""",
         ["inputs", "histories", "schedules"], "all key sets, filter sizes, export/import points, and interleavings of bit updates",
         "table_lookup_booster_test checks one small history; Bloom filters are only tested through sample tables.",
         ["src/bloomfilter.cc", "src/bloomfilter.h", "src/generic_bitmap.h", "src/table_lookup_booster.cc", "src/table_lookup_booster.h"],
         [("double hashing over the bit map", "src/bloomfilter.cc"), ("segment locks", "src/generic_bitmap.h"), ("seq-number guard", "src/table_lookup_booster.cc")],
         "property-based testing against set models, concurrent updates sampled",
         "Key sets up to thousands with exact membership, measured false positive rates with wide margins, concurrent bit updates.")
    prop("C09", "Thread pools, timers and waiters run every task exactly as requested",
         """Every task given to a thread pool runs exactly once (recurring ones at least the expected number of times until cancelled), never
         before its delay, never again after cancellation completed, and with its arguments; shutdown does not lose, repeat or hang.
         A waiter woken before or during its wait returns, one that is not woken waits for its timeout, and verbose log guards and timers report what
         they measured.""",
         ["schedules", "histories"], "all sequences of add, delay, cancel and shutdown, numbers of threads, and wake/wait interleavings",
         "The stable tests do not exercise the thread pool under load or cancellation races.",
         ["src/event_awaiter.h", "src/simple_thread_pool.h", "src/internal_helper.h"],
         [("task state and queue", "src/simple_thread_pool.h"), ("EventAwaiter status", "src/event_awaiter.h")],
         "randomized multi-threaded histories against expected counts and time bounds",
         "Histories of tasks with delays, cancellations and shutdown on 0 to several workers; schedules sampled.")
    prop("C10", "Histograms count every sample in the right bin",
         """A histogram's total, sum, average, maximum and each bin count equal those of the samples added, also when several threads add at once
         and after merging two histograms, and percentile estimates bound the true percentile by the bin that holds it.""",
         ["inputs", "histories", "schedules"], "all sample values, bin bases and merge sequences",
         "No unit test covers the histogram.",
         ["src/histogram.h"], [("exponent/mantissa binning", "histogram.h")],
         "model-based random histories",
         "Random sample sets, several bases, concurrent adders, compared with exact counts.")
    prop("C11", "File helpers: backup/restore, directory scans, names and string utilities",
         """Backing up a file (whole, or its first bytes from memory) yields a byte-exact copy and restoring reproduces the backup exactly, also over a longer file, while a missing source
         or a failing system call is reported. Helpers that create, list, copy, rename and remove
         files, parse numbers and names, compute primes and format hexadecimal dumps do exactly what their names say, for every input.""",
         ["inputs", "fault_sequences", "histories"], "all file contents, lengths, injected faults and helper arguments",
         "No unit test fails a system call in these helpers.",
         ["src/internal_helper.cc", "src/internal_helper.h", "src/hex_dump.h", "src/fileops_base.h"],
         [("BackupRestore", "src/internal_helper.cc"), ("FileMgr", "src/internal_helper.h")],
         "property-based testing with injected faults",
         "Random file contents, lengths and injected faults; helpers compared with independent definitions.")
    prop("C12", "The logger writes every admitted message once, in order, under any load",
         """Every message at or below the configured level reaches the log file exactly once, intact and in each thread's order, across buffer
         wrap-around, file rotation, several threads, explicit flush and shutdown; messages above the level do not appear. Rotation keeps the
         configured number of files and never removes or corrupts the current one.""",
         ["schedules", "histories", "configurations"], "all message lengths and rates, numbers of threads, sizes and numbers of log files, and shutdown points",
         "The unit tests use the logger only to print; nothing checks the file's contents.",
         ["src/logger.cc", "src/logger.h"], [("ring of log elements with status words", "src/logger.cc"), ("rotation in flush", "src/logger.cc")],
         "randomized multi-threaded histories checked against the written files",
         "Histories of logging threads with rotation, reinitialisation and shutdown; schedules sampled.")

    # ------------------------------------------------------------ database
    prop("D01", "Point reads return the latest write, whatever maintenance did",
         """A read of a key returns exactly the value, metadata and sequence number of the last successful write of that key, and 'not found'
         (or, when asked for metadata only, the tombstone) if that was a delete or there was none. This holds through any history of writes, batches, syncs, flushes, compactions,
         splits, merges, and re-openings, in every configuration.""",
         ["histories", "configurations", "inputs"],
         "all histories of API calls over all key and value contents and all configurations of tables, logs, filters, comparators, compression and direct I/O",
         "The stable tests cover isolated components; no test generates histories across flush, compaction, split, merge and reopen.",
         ["src/jungle.cc", "src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_compaction.cc", "src/table_split.cc",
          "src/table_file.cc", "src/table_manifest.cc", "src/log_manifest.cc"],
         [("log lookup newest first, then levels", "src/jungle.cc DB::get, src/table_mgr.cc TableMgr::get"), ("flush and compaction keep the newest version", "src/table_compaction.cc"),
          ("manifests", "src/table_manifest.cc, src/log_manifest.cc")],
         "model-based stateful generation over the public API, shrinking (ddmin)",
         "Random programs with maintenance on a real database over the ForestDB stand-in, all reads compared with a map model.",
         observe=["DB::get", "DB::getRecordByKey"])
    DBW = ["src/jungle.cc", "src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc"]
    STATEFUL = "model-based stateful generation over the public API, shrinking (ddmin)"
    prop("D02", "Iterators show one frozen, ordered view of their range",
         """An iterator visits, in key order (of the custom comparator if any), exactly the live keys of its range as they were when it was
         created, each once with its version of that moment, in both directions and after every seek. Later writes, flushes,
         compactions, splits, and the removal of old files never change, skip, repeat or invalidate what it shows.""",
         ["histories", "configurations", "inputs"],
         "all ranges, seeks and steps in both directions, over all histories before and while the iterator is open",
         "No stable test opens an iterator on a database; the rest use a few orders of a few keys.",
         ["src/iterator.cc", "src/memtable_iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/table_file_iterator.cc"],
         [("merge of log and table cursors in an AVL window", "src/iterator.cc, src/log_iterator.cc, src/table_iterator.cc"),
          ("reference counts that keep old files alive", "src/log_manifest.cc, src/table_manifest.cc")],
         STATEFUL, "Several iterators stay open over later operations; every step and seek is compared with the model's rows at creation.",
         observe=["Iterator::get", "Iterator::next", "Iterator::prev", "Iterator::seek"])
    prop("D03", "Sequence numbers identify writes, and sequence iterators replay them in order",
         """Sequence numbers grow with every write and survive flush, compaction and re-opening; a lookup by sequence number returns that very
         write while it is retained and never another one. A sequence iterator shows the current version of every key whose number lies in the range, in
         ascending order, and only records that were really written with that number.""",
         ["histories", "configurations", "inputs"],
         "all sequence ranges, seeks and lookups over all histories, snapshots and settings with a sequence index",
         "No stable test reads by sequence number.",
         ["src/iterator.cc", "src/memtable_iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/log_mgr.cc", "src/jungle.cc"],
         [("sequence list of the memtable", "src/memtable.cc, src/memtable_iterator.cc"), ("sequence index of table files", "src/table_file.cc")],
         STATEFUL, "Lookups and iterators over generated sequence ranges compared with the list of all writes kept by the model.",
         observe=["DB::getSN", "Iterator::initSN", "DB::getMaxSeqNum"])
    prop("D04", "Snapshots and checkpoints are immutable views",
         """Every read of a snapshot (by key, by iterator, by search) returns the state of the database at the moment it was opened, and a
         snapshot of a checkpoint the state at that checkpoint. This lasts until the snapshot is closed, whatever is written, flushed,
         compacted, split, or checkpointed meanwhile.""",
         ["histories", "configurations"],
         "all histories before and after the snapshot, several snapshots at a time, in all configurations",
         "No stable test opens a snapshot.",
         DBW + ["src/log_manifest.cc", "src/table_manifest.cc"],
         [("snapshot number limits and frozen file lists", "src/jungle.cc, src/log_mgr.cc, src/table_mgr.cc"), ("checkpoint markers", "src/table_file.cc")],
         STATEFUL, "Snapshots and checkpoints are kept open over later operations and fully compared with a copy of the model.",
         observe=["DB::openSnapshot", "DB::checkpoint"])
    prop("D11", "Nearest-key search returns the true neighbour of the key",
         """A nearest-key search returns the current version of the closest live key on the requested side (greater, smaller, with or without
         equality), or of a nearer tombstone, and 'not found' only if there is none. This holds across logs, levels, partitions, snapshots and
         custom orders.""",
         ["histories", "configurations", "inputs"],
         "all search keys and options over all histories and layouts of logs and tables",
         "No stable test calls the search on a database.",
         DBW, [("nearest in log files", "src/log_mgr.cc, src/memtable.cc"), ("nearest in tables and adjacent partitions", "src/table_mgr.cc, src/table_file.cc")],
         STATEFUL, "Searches around present, deleted and absent keys compared with the ordered model.",
         observe=["DB::getNearestRecordByKey"])
    prop("D12", "Prefix search delivers exactly the records with the prefix",
         """A prefix search calls back with every live key that starts with the prefix, its current version first for point readers, and with no
         key that does not start with it; it stops when the callback says so. This holds across logs, levels, partitions, filters and
         snapshots.""",
         ["histories", "configurations", "inputs"],
         "all prefixes and stop points over all histories and layouts of logs and tables",
         "No stable test calls the search on a database.",
         DBW, [("prefix search in memtables", "src/memtable.cc, src/log_mgr.cc"), ("prefix search in tables", "src/table_mgr.cc, src/table_file.cc")],
         STATEFUL, "Prefixes taken from present and absent keys, with generated stop points, compared with the model.",
         observe=["DB::getRecordsByPrefix"])
    prop("C13", "Worker threads obey run, stop, invoke, configuration and destroy",
         """A running worker starts some work after every invocation and works repeatedly without sleeping when it asks for it; a stopped or destroyed
         one does not work. Invoking by name wakes exactly the matching workers, every worker applies each new global configuration between
         two works and in order, and shutting down ends every thread. The sizes and numbers of writers derived from a configuration follow
         its documented rules.""",
         ["schedules", "histories", "configurations"], "all sequences of worker calls and their interleavings with the workers' loops, and all configurations",
         "No stable test uses the worker manager or the derived configuration values.",
         ["src/worker_mgr.cc", "src/worker_mgr.h", "src/db_config.cc"],
         [("status word and loop of WorkerBase", "src/worker_mgr.cc"), ("getMaxTableSize, getMaxParallelWriters", "src/db_config.cc")],
         "randomized histories over real threads against a model of who must and must not work",
         "Histories over up to 8 workers with long and short sleeps; liveness is bounded at 20 s; schedules sampled.")
    prop("C14", "Iterators over a log file's memory index show exactly their range",
         """An iterator over the in-memory index of a log file visits exactly the records within its key and sequence bounds, in order, in
         both directions and after every seek, with the newest version inside the bounds. Later or concurrent
         writes and syncs do not change what it shows.""",
         ["histories", "inputs", "schedules"], "all contents of a log file, bounds, seeks and steps, with writes going on",
         "memtable tests are not among the stable ones and use a few records in one order.",
         ["src/memtable_iterator.cc", "src/memtable.cc", "src/log_file.cc"],
         [("findFirstValidNode, next, prev, seek", "src/memtable_iterator.cc")],
         STATEFUL, "Key and sequence iterators on one log file under AddressSanitizer, stepped between and during writes.")
    prop("D20", "Key sampling returns distinct, existing, evenly spread keys",
         """Sampling returns at most the requested number of keys, all different, all written before, and only live ones when asked. On a
         database whose keys were each written once, it returns as many as requested (or all there are), spread over the history of writes.
         Asking for no samples is refused, and an empty database gives an empty list.""",
         ["histories", "inputs", "configurations"], "all histories, numbers of samples and options",
         "The sampling test is not among the stable ones and looks at one database.",
         ["src/sampler.cc", "src/sampler.h"], [("stepping through sequence numbers", "src/sampler.cc")],
         STATEFUL, "Programs with maintenance and snapshots; membership, number and spread compared with the model.",
         observe=["DB::getSampleKeys"])
    prop("D14", "A log-only database behaves as a numbered list with purge and rollback",
         """With only the log section enabled, every record is read back by its sequence number, in iterators, snapshots and latest-version key
         reads, exactly within the reported range. Purging removes a prefix and rollback a suffix, and evicting or reloading mem-tables is
         invisible. After re-opening or a crash at any point, synced records within the range are there, and a consecutive range has no holes.""",
         ["histories", "crash_points", "configurations"], "all histories of log-only operations, all crash points, all configurations of files, TTL and direct I/O",
         "The log-only tests are not among the stable ones and use a few scripts; none stops in between system calls.",
         ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_manifest.h", "src/log_file.cc", "src/log_reclaimer.cc"],
         [("log files, eviction and loading", "src/log_manifest.cc")],
         STATEFUL + ", crash images from a journal of system calls", "Programs on logSectionOnly databases compared with a list indexed by number; then crash images are opened, compared and written to again.",
         observe=["DB::getRecord", "DB::getMinSeqNum", "DB::getMaxSeqNum", "DB::flushLogs", "DB::rollback", "Iterator::initSN"])
    prop("D18", "Concurrent readers see a prefix of every writer's steps",
         """While writers, readers, flushes and syncs run concurrently, every get, nearest or prefix search, iterator and snapshot is explained by a
         prefix of each writer's calls that includes all calls returned before the read began and none started after it ended. A batch is seen
         entirely or not at all, and no thread goes back to an earlier prefix. When all threads have ended, and after re-opening, every
         write is there exactly once in sequence order.""".replace("and no thread goes back to an earlier prefix. When", "and no thread goes back. When"),
         ["schedules", "histories", "configurations"], "all interleavings of writers, readers, flushers and syncs, all histories and configurations",
         "The stable tests do not open a database; no test checks reads that overlap batches, flushes or log file switches.",
         ["src/log_mgr.cc", "src/memtable.cc", "src/log_manifest.cc", "src/log_iterator.cc", "src/table_mgr.cc", "src/table_file.cc", "src/table_manifest.cc", "src/flusher.cc",
          "src/skiplist.cc"],
         [("visibility of batches", "src/log_mgr.h, src/log_mgr.cc"), ("log list while files are added and removed", "src/log_manifest.cc")],
         "concurrency fuzzing with random delays at locks and debug call-backs, histories checked against prefixes of each writer's steps",
         "Up to three writers with keys of their own, three readers, two maintenance threads and the background flushers under AddressSanitizer. Compaction runs "
         "concurrently for level 0 without levels only; iterators and snapshots are created while no flush writes to tables (known finding).",
         observe=["DB::get", "DB::getNearestRecordByKey", "DB::getRecordsByPrefix", "Iterator", "DB::openSnapshot", "DB::setRecordBatch"])
    prop("D06", "Synced writes survive power loss, in a prefix of the history",
         """After a power loss at any point, the database opens and holds every write made durable before (by a sync with fsync, a checkpoint or a
         close), and no record that was never written. If storage keeps exactly the synced bytes, the state is that of a prefix of the
         history; if it keeps more, no key is older than its durable version and every version read is one that was written.""",
         ["crash_points", "histories", "configurations"],
         "all crash points between system calls, all subsets and prefixes of unsynced sectors, all histories and configurations",
         "No test stops the program between two system calls or drops unsynced data.",
         ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/table_mgr.cc",
          "src/fileops_posix.cc", "src/internal_helper.cc"],
         [("log flush and load", "src/memtable.cc, src/log_file.cc"), ("manifest store, backup and restore", "src/log_manifest.cc, src/table_manifest.cc, src/internal_helper.cc"),
          ("order of table, manifest and log removal", "src/jungle.cc, src/table_mgr.cc")],
         "crash-point injection over generated histories: the I/O journal is cut and replayed, the database reopened and compared with the model",
         "Every file-system call is journaled; images of several storage models are rebuilt at generated points. Directory entries count as durable at once; "
         "the storage engine under the tables is the harness's stand-in.")
    prop("D07", "Synced writes survive the end of the process, in a prefix of the history",
         """After the process ends at any point, the database opens and its state is that of a prefix of the history that contains every write
         acknowledged by a sync (with or without fsync) or close. This holds while logs roll over and tables are flushed, compacted, split
         and merged, and the database goes on working after it.""",
         ["crash_points", "histories", "configurations"], "all points between system calls, all histories and configurations",
         "No test stops the program between two system calls.",
         ["src/log_mgr.cc", "src/log_file.cc", "src/memtable.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/table_mgr.cc",
          "src/fileops_posix.cc", "src/internal_helper.cc"],
         [("log flush and load", "src/memtable.cc, src/log_file.cc"), ("manifest store and restore", "src/log_manifest.cc, src/table_manifest.cc"),
          ("order of table, manifest and log removal", "src/jungle.cc, src/table_mgr.cc")],
         "crash-point injection over generated histories: the I/O journal is cut and replayed, the database reopened and compared with the model",
         "As D06 with everything written before the kill kept; a batch torn by a kill is a recorded finding.")
