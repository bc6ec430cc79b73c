"""The properties, and for those no check decides, why."""
P = []
NA = {}

def prop(id, title, statement, over, text, why, files, mech, **more):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **more)))

prop("C01", "Caches answer like a bounded least-recently-used map",
     "For every history of insertions, lookups, removals, pops, resizes and clears, a cache answers exactly as a least-recently-used map of its capacity would: a lookup returns the last value stored under that key unless it was evicted, and eviction takes the entry unused for the longest time. The number of entries and the reported usage never exceed the capacity, an eviction or removal hands back exactly what left the cache, and no entry is lost, duplicated or leaked. Splitting the cache into shards changes only how capacity is divided: every key is still served by one shard, and removing or popping finds an entry whenever there is one.",
     ["histories", "inputs"], "all histories of operations within the bound, all keys, values, capacities and random draws",
     "Unit tests run a handful of fixed histories over one capacity; recency order, eviction hand-back and pointer surgery in the linked list depend on the whole history.",
     ["common/cache/src/lru_cache", "common/cache/src/sharded_sync_cache.rs"],
     [("linked list and hash map of the cache", "common/cache/src/lru_cache"), ("locking and sharding wrappers", "common/cache/src/")])
prop("C02", "The ring cache keeps the newest entries, and range deletes are exact",
     "For every history of additions and range deletions the ring cache holds exactly the most recent entries up to its capacity that were not deleted, in the order they were added. Deleting up to a key removes the entries before it and deleting from a key removes those from it on, and nothing else. A lookup returns the newest entry stored under its key.",
     ["histories", "inputs"], "all histories within the bound, all keys, values and capacities",
     "Wrap-around positions depend on the whole history; the tests walk one path around the ring.",
     ["common/cache/src/circular_kvcache.rs"], [("head and tail positions", "common/cache/src/circular_kvcache.rs")])
prop("C03", "A bloom filter never denies a key it was given, also after reload",
     "Whatever keys are inserted into a bloom filter of whatever size, each of them is afterwards reported as possibly present. Storing the filter's bytes and loading them yields the same filter: it reports every key exactly as before and accepts further keys. A filter nothing was inserted into reports every key as absent.",
     ["inputs", "configurations"], "all keys, all filter sizes within the bound",
     "A wrong position for one hash or one size loses data on reads silently; tests insert a few fixed keys into one size.",
     ["common/utils/src/bloom_filter.rs"], [("hash positions and bit addressing", "common/utils/src/bloom_filter.rs")])
prop("C04", "Stored hashes do not depend on how the bytes were fed in",
     "Hashing a byte string gives the same number whether it is fed whole, in pieces, or resumed from an intermediate number, and that number follows the published definition, since series placement and index identifiers are stored on disk. A prefix occupies the high half of the combined number and never changes the low half.",
     ["inputs"], "all byte strings, splits and prefixes within the bound",
     "The tests compare a few fixed strings.",
     ["common/utils/src/bkdr_hash.rs"], [("BKDR hash", "common/utils/src/bkdr_hash.rs")])
prop("C05", "De-duplication keeps the last of each run, exactly",
     "Removing duplicates from a list keeps, of every maximal run of neighbouring elements with equal keys, exactly the last one, in order and with its contents. No element is dropped twice, lost or read after it was dropped.",
     ["inputs"], "all lists within the bound with every pattern of equal keys",
     "Later writes overriding earlier ones at the same time depends on it; the tests try two lists, and memory errors in the unsafe code need not show.",
     ["common/utils/src/dedup.rs"], [("in-place compaction", "common/utils/src/dedup.rs")])
prop("C06", "Converting times between units is exact, ordered and never wraps",
     "Converting a time to a finer unit is exact or reported as impossible, and possible whenever the result can be represented; converting back returns the original. Converting to a coarser unit loses less than one unit, keeps sign and never fails. Conversion keeps the order of times, and unit names and codes read back as the unit that wrote them.",
     ["inputs"], "every 64-bit time and pair of units",
     "A wrapped or wrongly rounded time silently moves data; tests sample a few values.",
     ["common/utils/src/precision.rs"], [("timestamp_convert", "common/utils/src/precision.rs")])
prop("C07", "Durations convert without overflow and printed durations read back",
     "A configured duration converts to any time unit exactly, or to the largest value when it does not fit, and is never negative; an unlimited duration is always the largest value. A bare number means days. Printing a duration and reading the text back yields the same duration.",
     ["inputs"], "every duration within the bound",
     "Retention and bucket lengths are computed from it; a wrapped duration expires live data. Tests sample round values.",
     ["common/utils/src/duration.rs"], [("conversion, parsing and printing", "common/utils/src/duration.rs")])
prop("C09", "A rate limiter never hands out more than its rate, nor withholds it",
     "Over any history of requests the tokens a rate limiter hands out never exceed the initial tokens plus one refill for each interval begun, and its balance never exceeds its maximum. A request is refused or cut short only when the tokens are not there, a refused request takes nothing, and every interval that passes adds its full refill up to the maximum, whatever the configured amounts.",
     ["histories", "inputs", "configurations"], "all request histories, amounts and configurations within the bound; moments around refill boundaries",
     "The one test measures an average over wall-clock time.",
     ["common/limiter_bucket/src/rate_bucket.rs"], [("refill and acquire", "common/limiter_bucket/src/rate_bucket.rs")])
prop("C10", "Limiters keep their settings and state when stored and reloaded",
     "A limiter stored and reloaded, in binary or text form, has the same settings, balance and moment of next refill as before. A counting limiter starts at its configured amount and its count is always exactly what was added less what was taken.",
     ["inputs", "histories"], "all amounts and histories within the bound",
     "Tests reload one limiter with round numbers.",
     ["common/limiter_bucket/src/rate_bucket.rs", "common/limiter_bucket/src/count_bucket.rs"], [("serialization and counting", "common/limiter_bucket/src/")])
prop("C11", "Time ranges are exact sets of timestamps",
     "A time range, and a set of time ranges, holds exactly the timestamps put into it, whatever bounds they were given as, including the smallest and largest timestamps. Union, intersection, exclusion, inclusion, overlap, merging and membership answer as the same operations on sets of timestamps would, the ranges of a set stay sorted, disjoint and non-empty, and only a set of every timestamp counts as boundless.",
     ["inputs"], "every 64-bit timestamp and every range within the bound",
     "What is scanned, deleted, expired and compacted is decided by these sets; tests use small round numbers away from the ends of the scale.",
     ["common/models/src/predicate/domain.rs"], [("TimeRange, TimeRanges", "common/models/src/predicate/domain.rs")])
prop("C12", "Predicate pushdown never loses a matching row",
     "Domains made from ranges or lists of values, and their unions and intersections, hold exactly the values they stand for. When the condition of a query is turned into domains of columns and ranges of time to be scanned, every row that satisfies the condition lies within them, whatever the condition combines; parts that are not understood never narrow the scan. A single comparison on time scans exactly its range.",
     ["inputs"], "all conditions within the bound, every column value and literal",
     "A wrongly narrowed domain silently drops rows from answers; tests translate a few fixed conditions.",
     ["common/models/src/predicate/domain.rs", "common/models/src/predicate/transformation.rs", "common/models/src/predicate/utils.rs"],
     [("value domains", "common/models/src/predicate/domain.rs"), ("expression to domains", "common/models/src/predicate/transformation.rs"), ("domains to time ranges", "common/models/src/predicate/utils.rs")])
prop("C13", "DELETE removes exactly the rows its condition selects",
     "When a DELETE is accepted, the tag domains and time ranges it is turned into select exactly the rows that satisfy its condition, whatever comparisons on time and tags it combines, in whatever order and nesting, and in whatever unit the table keeps its timestamps. A condition that cannot be expressed exactly is refused, not approximated.",
     ["inputs"], "all conditions within the bound, every timestamp, tag value and literal",
     "A condition translated too widely destroys data for good; tests translate a few fixed conditions.",
     ["common/models/src/predicate/transformation.rs", "common/models/src/predicate/utils.rs", "common/models/src/predicate/domain.rs"],
     [("DELETE conditions to domains", "common/models/src/predicate/transformation.rs"), ("domains to time ranges in the unit of the table", "common/models/src/predicate/utils.rs")])
prop("C14", "What is stored in a column block reads back exactly",
     "For every column type and every encoding offered for it, the values stored in a data block read back exactly (bit for bit for floats), in the rows that held them, and the rows without a value stay empty, wherever those rows are. A value that an encoding cannot hold is refused when it is written, never changed and never turned into a block that cannot be read.",
     ["inputs"], "all null patterns and all 64-bit values within the row bound, every packed width and run-length boundary",
     "A codec that loses one value destroys stored data silently; tests encode a few vectors, and the boundaries (widths, runs, sentinels, first rows without value) are many.",
     ["tskv/src/tsm/codec/timestamp.rs", "tskv/src/tsm/codec/integer.rs", "tskv/src/tsm/codec/unsigned.rs", "tskv/src/tsm/codec/float.rs", "tskv/src/tsm/codec/boolean.rs", "tskv/src/tsm/codec/string.rs", "tskv/src/tsm/codec/simple8b.rs"],
     [("integer and timestamp blocks", "tskv/src/tsm/codec/timestamp.rs"), ("bit packing", "tskv/src/tsm/codec/simple8b.rs"), ("float blocks", "tskv/src/tsm/codec/float.rs"), ("boolean blocks", "tskv/src/tsm/codec/boolean.rs"), ("string blocks", "tskv/src/tsm/codec/string.rs")])
prop("C15", "Record files give back what was written whole, and notice what was changed",
     "A record file (the format of write-ahead logs, vnode summaries and tombstones) gives back, in order, exactly the records written to it, across closing, reopening, appending and footers. When a crash cuts the file at any byte, reopening gives exactly the records that were whole by then, appending goes on behind the torn one, and everything appended is read back too. When a byte of a record changes on disk, that record is not given out and every other record still is.",
     ["inputs", "crash_points"], "all record contents within the sizes, every cut position, every changed byte with every change",
     "Acknowledged writes, deletes and the list of data files live in record files; a reader that stops at, trips over or invents a record after a crash loses all of them, and tests only write complete files.",
     ["tskv/src/record_file/reader.rs", "tskv/src/record_file/writer.rs", "tskv/src/file_system/file/stream_writer.rs", "tskv/src/file_system/file/stream_reader.rs"],
     [("finding and checking records", "tskv/src/record_file/reader.rs"), ("appending records and reopening", "tskv/src/record_file/writer.rs"), ("buffered file writes", "tskv/src/file_system/file/stream_writer.rs")])
prop("C16", "Memory holds the last value written to every column of every row",
     "Reading a vnode's memory gives, for every series and time range, each written timestamp exactly once, every column with the last value written to it at that timestamp (columns a later write left out keep theirs), whatever order rows arrive in, within one batch or several, and however columns were added, renamed or dropped in between; rows in a deleted time range and dropped columns are gone, and nothing else is. A write is accepted exactly when the memory pool has room for it; a refused write leaves nothing behind, and all accounted memory is given back.",
     ["histories", "inputs"], "all histories of the stated operations with every timestamp, value and deletion bound",
     "Every write and every fresh query goes through this merge; a lost or outdated value here is a wrong query result or a wrong file on disk, and which histories matter depends on equal timestamps, schema changes and deletions in combination.",
     ["tskv/src/mem_cache/series_data.rs", "tskv/src/mem_cache/memcache.rs", "tskv/src/mem_cache/row_data.rs", "common/memory_pool/src/lib.rs"],
     [("merging the groups of a series", "tskv/src/mem_cache/series_data.rs"), ("the cache of a vnode", "tskv/src/mem_cache/memcache.rs"), ("rows in order", "tskv/src/mem_cache/row_data.rs")])
prop("C17", "A restarted vnode has exactly the files it had",
     "After any sequence of flushes and compactions, whether the summary is appended to or written anew, opening the vnode again gives the same files at the same levels with the same sizes, time ranges and paths, and the same last flushed sequence number, as the running vnode had. A crash that cuts the summary anywhere in its last edit, or while it is written anew, leaves the state before or after that edit, and the vnode goes on from there. A file id that was ever recorded is never given to another file, and the last time a version claims to hold is never before that of any of its files.",
     ["histories", "crash_points", "inputs"], "all histories of the stated length, with a crash at any byte",
     "The summary alone says which data files belong to a vnode: a file it loses is lost data, a file it brings back is deleted data returned, and an id used twice makes one file inherit another's deletions. Which of these happens depends on where a crash falls between edits and a rewrite.",
     ["tskv/src/tsfamily/summary.rs", "tskv/src/tsfamily/version.rs", "tskv/src/tsfamily/level_info.rs", "tskv/src/tsfamily/tseries_family.rs", "common/utils/src/id_generator.rs"],
     [("recovering and rewriting the summary", "tskv/src/tsfamily/summary.rs"), ("applying an edit to a version", "tskv/src/tsfamily/version.rs"), ("the edit that describes a whole vnode", "tskv/src/tsfamily/tseries_family.rs")])
prop("C18", "What was deleted from a data file stays deleted, and nothing else is",
     "Whatever sequence of deletions, partial compactions and restarts a data file goes through, the deletions recorded for it hide exactly the timestamps that were deleted (of the named columns, or of whole rows) or taken over by a compaction that finished: a range stays deleted after reopening, deletions added while a compaction prepares its own are kept when it finishes, what a compaction prepared but never installed takes no effect, and deletions that were whole when a crash cut the file are kept.",
     ["histories", "crash_points", "inputs"], "all histories of the stated length, every time bound, every cut position",
     "A lost deletion brings deleted rows back, one that is too wide loses data; which of them happens depends on how deletions, compactions and crashes interleave.",
     ["tskv/src/tsm/tombstone.rs", "common/models/src/predicate/domain.rs"],
     [("recording, compacting and loading deletions", "tskv/src/tsm/tombstone.rs"), ("merging deleted ranges", "common/models/src/predicate/domain.rs")])
prop("C19", "A data file gives back what was put into it, minus what was deleted",
     "A flush writes to its data file exactly the rows that memory held for every series, each timestamp once and in order with its column values, and nothing when there is nothing; it reports the size, the time span and the series filter of the file, and the file is on disk when it is reported. Opening and reading the file gives these rows back, its filter has every series in it, and after a deletion or a partial compaction the file gives exactly the rows and columns that were not deleted, also after it is reopened.",
     ["histories", "inputs"], "all histories of the stated operations with every order of times and every deleted range",
     "After a flush the log may be dropped, so what the file does not give back is lost for good; whether it does depends on how memory, page encoding, statistics, metadata, filters and deletions meet.",
     ["tskv/src/compaction/flush.rs", "tskv/src/tsm/writer.rs", "tskv/src/tsm/reader.rs", "tskv/src/tsm/page.rs", "tskv/src/tsm/footer.rs", "tskv/src/mem_cache/series_data.rs"],
     [("flushing memory", "tskv/src/compaction/flush.rs"), ("writing a data file", "tskv/src/tsm/writer.rs"), ("reading a data file", "tskv/src/tsm/reader.rs"), ("pages", "tskv/src/tsm/page.rs"), ("the series filter", "tskv/src/tsm/footer.rs")])
prop("C20", "A compaction moves rows and changes none",
     "Compacting files gives one file that holds, for every series, exactly the rows of the files that went in: each timestamp once and in order, every column with the value of the newest file that has one, nothing that had been deleted, whatever schemas, series and blocks the files have; and a further compaction keeps it so. The files that went in are dropped. A delta compaction takes exactly the rows in its time range, and the rows outside of it stay in the files they were in; a file is dropped only when nothing is left of it. The new file is reported with its level, size and a time span that contains its rows, and is on disk when it is reported.",
     ["histories", "inputs"], "all files within the bounds, every order and overlap of times, every range taken over",
     "Compaction rewrites all data in the background and deletes the originals; a row lost, duplicated or reverted to an older value there is silent corruption, and it takes particular overlaps of times, series, schemas and deletions.",
     ["tskv/src/compaction/compact.rs", "tskv/src/compaction/comapcting_block_meta_group.rs", "tskv/src/compaction/compacting_block_meta.rs", "tskv/src/compaction/writer_wrapper.rs", "tskv/src/reader/sort_merge.rs", "tskv/src/tsm/writer.rs"],
     [("choosing and merging blocks", "tskv/src/compaction/compact.rs"), ("merging the rows of a group", "tskv/src/compaction/comapcting_block_meta_group.rs"), ("merging sorted rows", "tskv/src/reader/sort_merge.rs"), ("the new file", "tskv/src/compaction/writer_wrapper.rs")])

prop("C21", "A query gives what was written last",
     "Reading a series gives each timestamp once, in order, with every column holding the value written last for it, wherever the parts are: in files of any level, delta files, a memory cache being flushed or the current one, whatever their file numbers. Conditions on time and values apply to what was written last: no row outside the time asked for comes, no row that satisfies the conditions is missing, and a value that was overwritten never satisfies one. Rows carry their tags and the columns asked for, null where nothing was written. How many rows are in a batch makes no difference, and a limit only cuts off rows.",
     ["histories", "inputs"], "all places, orders, overlaps and conditions within the bounds",
     "Newer values over older ones is what an update means; which of several parts is the newer and whether a condition is asked before or after merging shows only for particular overlaps of memory, delta files and compacted files.",
     ["tskv/src/reader/mod.rs", "tskv/src/reader/iterator.rs", "tskv/src/reader/sort_merge.rs", "tskv/src/reader/batch_builder.rs", "tskv/src/reader/partitioned_stream.rs", "tskv/src/reader/memcache_reader.rs", "tskv/src/reader/filter.rs", "tskv/src/reader/merge.rs", "tskv/src/reader/schema_alignmenter.rs", "tskv/src/reader/series.rs", "tskv/src/reader/utils.rs", "tskv/src/reader/chunk.rs", "tskv/src/reader/column_group/mod.rs"],
     [("which data is newer", "tskv/src/reader/mod.rs"), ("grouping, merging and filtering", "tskv/src/reader/iterator.rs"), ("merging sorted rows", "tskv/src/reader/sort_merge.rs"), ("rows in memory", "tskv/src/reader/memcache_reader.rs"), ("filling columns", "tskv/src/reader/schema_alignmenter.rs")])

prop("C22", "A write that was acknowledged survives any crash",
     "Once a write is acknowledged, a restart after a crash at any point gives it back: what was not yet flushed to data files is replayed from the log exactly once, in order, and the log is cut only behind what was flushed.",
     ["crash_points", "histories"], "all crash points in all histories of writes, flushes and log truncations",
     "Which part of log, memory and files a crash leaves behind depends on its moment; tests restart after orderly shutdowns.",
     ["tskv/src/wal", "tskv/src/kvcore.rs"], [("log files", "tskv/src/wal"), ("replay", "tskv/src/kvcore.rs")])
NA["C22"] = "The log's entries are openraft entries and its store is part of the openraft state machine (entry storage, snapshots, engine), whose code is not among the offline sources a stand-in could be derived from; the record files the log is made of are decided by C15, flushing by C19, the summary by C17."

prop("C23", "Replicas of a shard apply the same writes in the same order",
     "All replicas of a replication set apply the same committed entries in the same order under message loss, reordering, restarts and leader changes, and a snapshot installed on a replica leaves it as if it had applied the entries the snapshot covers.",
     ["schedules", "fault_sequences"], "all schedules of messages, restarts and elections",
     "Divergence needs particular interleavings of elections, snapshots and restarts.",
     ["replication/src", "tskv/src/vnode_store.rs"], [("Raft nodes and state machine", "replication/src")])
NA["C23"] = "Consensus is in the openraft dependency and its entry store in heed (LMDB, C code through FFI): neither can be encoded from /repo's source; what remains in /repo is asynchronous glue around them."

prop("C24", "Every point is written to the shard its time and tags belong to",
     "A point is written to the bucket whose time range holds its timestamp and, within it, to the shard its series hashes to, on every node alike; a query over a time range reads every shard that may hold matching points.",
     ["inputs", "configurations"], "all points, bucket layouts and time ranges",
     "Points at the ends of buckets and clusters with changed layouts are rarely in tests.",
     ["coordinator/src/service.rs", "common/models/src/meta_data.rs"], [("choosing shards", "coordinator/src/service.rs")])
NA["C24"] = "Placement is decided inside the coordinator's service, together with the meta client, gRPC clients, Raft managers and DataFusion plans; with the dependencies of that crate neither built nor encodable offline the functions cannot be compiled apart from it. The hash it uses is decided by C04, the time ranges by C11."

prop("C25", "Cluster metadata changes are applied atomically and alike on every meta node",
     "Applying a sequence of metadata commands to the meta state machine gives the same state on every node and after every snapshot and restart; a command that is refused changes nothing, and identifiers are never given out twice.",
     ["histories"], "all sequences of commands, snapshots and restarts",
     "Commands that fail half-way and restarts between commands are not sampled.",
     ["meta/src/store"], [("state machine", "meta/src/store/storage.rs")])
NA["C25"] = "The state machine is the storage of an openraft node and its commands carry types of DataFusion, gRPC and the meta service; the crate and these dependencies do not build offline, and its atomicity and persistence are those of heed (LMDB, C through FFI), which a stand-in would replace."

prop("C26", "The series index finds exactly the series that match",
     "Looking up series by table and tag conditions gives exactly the series ever written and not deleted that satisfy them, each under one id that never changes, also after a restart.",
     ["histories", "inputs"], "all histories of series written, renamed and deleted, all tag conditions",
     "Range and not-equal conditions on tags over long histories with restarts are not sampled.",
     ["tskv/src/index"], [("index of tags and series", "tskv/src/index/ts_index.rs")])
NA["C26"] = "The index compiles here only over stand-ins for heed (LMDB, C through FFI), memory-mapped files and roaring bitmaps, which C13, C18 and others merely pass through; its ordered iteration, transactions and persistence, which decide this property, are theirs, so a verdict would be about the stand-ins. The hashes it is asked with are decided by C04."

prop("C27", "SQL answers are what the SQL standard and CnosDB's documentation say",
     "A SELECT gives what evaluating its clauses in order on the stored rows would give, whatever optimiser rules apply, among them CnosDB's own rules and its gap-filling, time-window and top/bottom operators.",
     ["inputs", "programs"], "all queries and tables",
     "Optimiser rules interact; tests hold one query per feature.",
     ["query_server/query/src"], [("optimiser rules and operators", "query_server/query/src")])
NA["C27"] = "Plans, expressions, optimiser and operators are DataFusion's (a git dependency of several hundred thousand lines that does not build offline); CnosDB's rules are rewrites of its plan types and mean nothing apart from its evaluation. What conditions become below it is decided by C12, C13 and C21."

prop("C28", "Nobody reads or changes what they have no privilege for",
     "Every statement is executed only when the user holds, through roles or as owner or administrator, the privileges it needs on each object it touches.",
     ["inputs", "configurations"], "all statements, users, roles and grants",
     "A statement that forgets one privilege passes every test that is run as administrator.",
     ["query_server/query/src/sql/planner.rs", "common/models/src/auth"], [("privileges of statements", "query_server/query/src/sql/planner.rs")])
NA["C28"] = "Which privileges a statement needs is collected while the planner builds DataFusion plans, in code that cannot be compiled offline without DataFusion; the comparison of privileges alone is a few match arms that say nothing about whether the planner asks."
