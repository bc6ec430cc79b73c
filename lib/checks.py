"""What each property's check runs: harness functions, tiers, bounds."""

COMMON_ASSUMPTIONS = [
    "LLVM IR is taken from rustc (nightly) at opt-level 2, release semantics (no overflow checks, no debug assertions), target riscv64 (64-bit little endian, as x86_64/aarch64)",
    "allocation never fails; memory is laid out by the executor's allocator (addresses are concrete)",
    "rand draws are arbitrary values; hashers and hash maps run their real code",
    "trusted: rustc and LLVM up to the emitted IR, the executor /verif/engine, Z3",
]

def H(group, fn, quick=None, thorough=None, covers=()):
    return dict(group=group, fn=fn, quick=quick, thorough=thorough or quick, covers=list(covers))

def cfg(time=60, jobs=8, **params):
    c = dict(time=time, jobs=jobs)
    for k in ("qt", "mux_read", "mux_write", "samples", "steps"):
        if k in params:
            c[k.replace("_", "-")] = params.pop(k)
    c["params"] = params
    return c

PROPS = {}

PROPS["C01"] = dict(
    crates=["cache"],
    harnesses=[
        H("cache", "cache_lru", cfg(ops=4), cfg(300, ops=5), ["evict", "hit", "pop", "resize"]),
        H("cache", "cache_sync", cfg(ops=3), cfg(300, ops=4), ["evict", "hit", "pop", "resize"]),
        H("cache", "cache_async", cfg(ops=3), cfg(300, ops=4), ["evict", "hit", "pop", "resize"]),
        H("cache", "cache_sharded_sync", cfg(ops=3), cfg(900, ops=4), ["evict", "hit", "pop"]),
        H("cache", "cache_sharded_async", cfg(ops=3), cfg(900, ops=3), ["evict", "hit", "pop"]),
    ],
    bounds="every sequence of up to 3 (quick; 4 for the plain cache) or 4-5 (thorough) operations insert/get/remove/pop/resize/clear; capacity 1..3 (1..2 per shard); keys with arbitrary equality pattern over 4 identities and two hash classes; arbitrary 64-bit values; arbitrary random draws",
    outside="longer histories, more than two hash classes, real threads (each call takes one lock and runs alone)",
)
PROPS["C02"] = dict(
    crates=["cache"],
    harnesses=[H("cache", "cache_ring", cfg(ops=4), cfg(600, ops=6), ["ring-evict", "del-before", "del-after"])],
    bounds="every sequence of up to 4 (quick) or 6 (thorough) put/delete-before/delete-after operations, capacity 1..3, arbitrary 8-bit keys, arbitrary 64-bit values; range deletes only on histories with ascending keys (the documented precondition)",
    outside="longer histories, capacity above 3",
)
PROPS["C03"] = dict(
    crates=["utils"],
    harnesses=[
        H("utils", "bloom_no_false_negative", cfg(sizes=4, keylen=2), cfg(900, sizes=5, keylen=3), ["distinct-keys"]),
        H("utils", "bloom_reload_identical", cfg(90, sizes=4), cfg(900, sizes=5), ["reloaded"]),
        H("utils", "bloom_default_size", cfg(keylen=1, mux_write=128), cfg(600, keylen=2, mux_write=128), ["default"]),
        H("utils", "bloom_empty_filter", cfg(), cfg(), ["empty"]),
    ],
    bounds="filters of 1, 8, 9 and 16 requested bits (thorough: 64) and the default size; two inserted keys, every byte content, of up to 2 (thorough 3) bytes; one reload from the stored bytes, then further inserts",
    outside="longer keys, more than two inserted keys, larger filters",
)
PROPS["C04"] = dict(
    crates=["utils"],
    harnesses=[H("utils", "bkdr_streaming", cfg(len=12), cfg(600, len=24), ["split"])],
    bounds="every byte string of up to 12 (thorough 24) bytes, every split into two pieces, every prefix",
    outside="longer strings",
)
PROPS["C05"] = dict(
    crates=["utils"],
    harnesses=[
        H("utils", "dedup_keeps_last", cfg(n=5), cfg(600, n=7), ["removed", "kept-many"]),
        H("utils", "dedup_relation", cfg(n=4), cfg(600, n=6), ["removed"]),
    ],
    bounds="every list of up to 5 (thorough 7) elements with any pattern of equal keys, and lists of up to 4 (thorough 6) elements with arbitrary 8-bit keys under a coarser equivalence",
    outside="longer lists; relations that are not equivalences",
)
PROPS["C06"] = dict(
    crates=["utils"],
    harnesses=[
        H("utils", "precision_convert", cfg(), cfg(300), ["finer", "overflow", "coarser"]),
        H("utils", "precision_monotone", cfg(), cfg(300), ["ordered"]),
        H("utils", "precision_names", cfg(), cfg(300), ["named"]),
    ],
    bounds="every 64-bit time and every pair of ordered 64-bit times, every pair of units, every unit code",
    outside="nothing within the functions named",
)
PROPS["C07"] = dict(
    crates=["utils"],
    harnesses=[
        H("utils", "duration_saturates", cfg(), cfg(300), ["capped", "exact"]),
        H("utils", "duration_days", cfg(), cfg(300), ["too-large", "days"]),
        H("utils", "duration_parse_digits", cfg(), cfg(300, len=6), ["parsed"]),
        H("utils", "duration_print_parse", cfg(count=9, rest=9, sub=9), cfg(900, count=59, rest=9, sub=99), ["subsecond", "days"]),
        H("utils", "duration_inf", cfg(), cfg(300), ["inf"]),
    ],
    bounds="unit conversion: every duration (64-bit seconds, every nanosecond); day counts: every 64-bit value; text: bare numbers of up to 4 (thorough 6) digits, every 3-letter word over iInNfFx, and printed durations of up to 9 (thorough 59) seconds/minutes/hours/days plus up to 9 seconds and up to 9 (thorough 99) milli-, micro- or nanoseconds",
    outside="other texts and longer printed durations",
)
PROPS["C09"] = dict(
    crates=["limiter_bucket"],
    harnesses=[
        H("limiter", "rate_step", cfg(90), cfg(900, refill=1000, max=5000), ["refill", "catch-up"]),
        H("limiter", "rate_never_over", cfg(calls=1), cfg(900, calls=2, intervals=1, steps=5, starts=0), ["refilled"]),
        H("limiter", "rate_refills", cfg(), cfg(300, steps=11), ["refilled", "full"]),
        H("limiter", "rate_saturates", cfg(), cfg(300), ["many-intervals"]),
    ],
    bounds="one request from an arbitrary state of the bucket (which carries to histories of any length): five intervals from 1 ms to a day, four sub-second phases, eleven moments around the refill boundaries, refill 1..100, maximum and balance 0..1000 (thorough 1000 and 5000), any request up to 10000; whole histories of 1 (thorough 2) requests with every default; arbitrary 64-bit amounts over up to three refills",
    outside="intervals that are zero or negative (rejected by the builder), clocks that run backwards, other moments",
)
PROPS["C10"] = dict(
    crates=["limiter_bucket"],
    harnesses=[
        H("limiter", "count_bucket", cfg(), cfg(300, ops=8), ["counted"]),
        H("limiter", "rate_store_reload", cfg(), cfg(300), ["bincode"]),
        H("limiter", "rate_store_reload_json", cfg(), cfg(300), ["json"]),
    ],
    bounds="counting bucket: every maximum and start, every sequence of up to 4 (thorough 8) changes by any 64-bit amount, stored and reloaded; rate bucket: every 64-bit amount in binary form, single digits in text form, three intervals, three clock phases",
    outside="longer histories",
)
PROPS["C11"] = dict(
    crates=["models"],
    harnesses=[
        H("models", "time_range_algebra", cfg(), None, ["overlap", "apart"]),
        H("models", "time_range_from_bounds", cfg(), None, ["inside"]),
        H("models", "time_ranges_build", cfg(n=3), cfg(600, n=4), ["merged", "separate"]),
        H("models", "time_ranges_query", cfg(n=2), cfg(600, n=3), ["included", "overlap"]),
        H("models", "time_ranges_grow", cfg(n=2), cfg(600, n=3), ["holes"]),
        H("models", "time_range_exclude_many", cfg(n=2), cfg(600, n=3), ["nothing", "remains"]),
    ],
    bounds="every pair of time ranges and every kind of bound over all 64-bit timestamps; sets built from up to 3 (thorough 4) ranges, queried, extended, intersected and excluded with up to 2 (thorough 3); an arbitrary timestamp as witness",
    outside="sets of more ranges",
)
PROPS["C12"] = dict(
    crates=["models"],
    harnesses=[
        H("models", "domain_of_ranges", cfg(), None, ["merged"]),
        H("models", "domain_union", cfg(), None, ["in"]),
        H("models", "domain_intersect", cfg(), None, ["in"]),
        H("models", "domain_values", cfg(), None, ["sets"]),
        H("models", "column_domains_combine", cfg(), None, ["combined"]),
        H("models", "predicate_sound", cfg(leaves=2), None, ["kept", "pruned", "restricted"]),
        H("models", "predicate_sound_opaque", cfg(90), None, ["kept", "pruned", "restricted"]),
        H("models", "predicate_sound_bool", cfg(), None, ["kept", "pruned"]),
        H("models", "predicate_time_ranges", cfg(), None, ["scanned", "skipped"]),
    ],
    bounds="domains of up to two ranges, or two listed values, each with every kind of bound and every 64-bit value; conditions of up to two comparisons (=, <>, <, <=, >, >=, either operand order) joined by AND or OR, plus parts the translation does not understand (function calls, casts, negation, boolean columns); every 64-bit column value and literal",
    outside="conditions with more comparisons, IN lists and LIKE, text and floating-point literals (they use the same generic ordered-value code)",
)
PROPS["C13"] = dict(
    crates=["models"],
    harnesses=[
        H("models", "delete_exact", cfg(90, leaves=2), None, ["accepted", "deleted"]),
        H("models", "delete_nested", cfg(90), None, ["accepted", "deleted"]),
        H("models", "delete_other", cfg(), None, ["accepted", "deleted", "refused"]),
        H("models", "delete_precision", cfg(leaves=2), None, ["deleted", "kept"]),
    ],
    bounds="conditions of up to two comparisons on time and tags (and one nested three-comparison shape) joined by AND or OR, every 64-bit time and literal; precision of table and literal every pair of units",
    outside="conditions with more comparisons; literals of another type than the column's",
)

PROPS["C14"] = dict(
    crates=["tskv"],
    harnesses=[
        H("tskv", "codec_int", cfg(90, rows=4), cfg(300, rows=5), ["gaps"]),
        H("tskv", "codec_uint", cfg(90, rows=4), cfg(300, rows=5), ["gaps"]),
        H("tskv", "codec_ts", cfg(90, rows=2), None, []),
        H("tskv", "codec_packed", cfg(60), None, []),
        H("tskv", "codec_runs", cfg(90, n=1), cfg(400, n=5), []),
        H("tskv", "codec_float", cfg(30), cfg(100, rows=6), ["gaps"]),
        H("tskv", "codec_gorilla", cfg(60), None, ["refused"]),
        H("tskv", "codec_gorilla_pairs", cfg(60), cfg(400, rows=3), ["refused"]),
        H("tskv", "codec_gorilla_gaps", cfg(30), cfg(100, rows=6), ["gaps"]),
        H("tskv", "codec_bool", cfg(30), cfg(100, rows=8), ["gaps"]),
        H("tskv", "codec_bool_long", cfg(30), None, []),
        H("tskv", "codec_string", cfg(30), cfg(200, rows=4, len=3), ["gaps"]),
    ],
    bounds="all rows/null patterns of up to 4 rows (5 to 8 thorough) with every value of every column type and encoding; every packed width of simple8b, runs around 120, 240 and 360 equal steps; Gorilla: every single float, every pair whose differences start and end at one of ten bit positions",
    outside="the byte-level compressors themselves (pco, snappy, gzip, bzip2, zstd, zlib are replaced by identity stand-ins); longer blocks of arbitrary values",
)
PROPS["C15"] = dict(
    crates=["tskv"],
    harnesses=[
        H("tskv", "record_readback", cfg(90, n=2), cfg(400, n=3), ["footer", "reopened"]),
        H("tskv", "record_torn", cfg(90, n=2, lens=1), cfg(500, n=3, lens=2, more=2), ["torn-data", "went-on"]),
        H("tskv", "record_changed", cfg(90, n=2, len=4), cfg(300, n=3, len=8), ["data", "magic"]),
    ],
    bounds="files of up to 2 records (3 thorough) of arbitrary content, closed and reopened after any of them, with and without a footer; a cut at every byte followed by one further record (2 thorough); any change of any one byte other than the length field",
    outside="records that contain the record magic number or are made whole by accident after a tear (as unlikely as a 32-bit checksum collision), a file whose last 32 bytes happen to carry a footer checksum, a changed length field, records longer than the 64 MB read buffer, concurrent readers, failing disks",
)
PROPS["C16"] = dict(
    crates=["tskv", "memory_pool"],
    harnesses=[
        H("tskv", "mem_history", cfg(150, len=2), None, ["column added", "column dropped", "deleted"]),
        H("tskv", "mem_history", cfg(150, len=3, ops=0b101101), cfg(500, len=4, ops=0b101101), ["column added", "column dropped"]),
        H("tskv", "mem_history", cfg(100, len=3, ops=0b1000001), cfg(600, len=3, ops=0b1000011), ["deleted"]),
        H("tskv", "mem_history", cfg(100, len=3, ops=0b101, series=2), cfg(600, len=4, ops=0b100101, series=2), ["column added"]),
        H("tskv", "mem_full", cfg(150), None, ["refused"]),
    ],
    bounds="histories of two operations of any kind (write one or two rows, add, drop or rename a column, delete a range or two), of three among single-row writes, column changes and single deletes (four thorough), over one or two series, every timestamp and value; then one read of any time range",
    outside="concurrent writers (operations are taken one at a time, as the locks make them), other value types than integers (carried, not looked at, by this code), the skip list itself (a sorted vector with the same order of equals stands in)",
)
PROPS["C17"] = dict(
    crates=["tskv", "utils"],
    harnesses=[
        H("tskv", "summary_history", cfg(100, n=3, bits=8), cfg(600, n=5, bits=4), ["reopened", "compacted", "rewritten"]),
        H("tskv", "summary_history", cfg(100, n=4, bits=4), cfg(600, n=4, bits=8), ["reopened", "compacted", "rewritten"]),
        H("tskv", "summary_torn", cfg(100, bits=8), cfg(600, bits=64), ["whole"]),
        H("tskv", "summary_rewrite_torn", cfg(100), cfg(600, cuts=1), ["rewritten"]),
    ],
    bounds="histories of up to four edits (five thorough) that add, remove or move a file or only advance the sequence number, with a restart after any of them, summaries appended to or rewritten at every edit; sequence numbers and times of 4 or 8 symbolic bits (64 thorough); the summary cut at every byte of the last edit, and a left-over new summary cut at 7 places (every byte thorough)",
    outside="checksums are taken over the bytes that are known on the path (C15 has the checksums themselves), the data files (no file is opened), splitting the summary of an old release",
)
PROPS["C18"] = dict(
    crates=["tskv", "models"],
    harnesses=[
        H("tskv", "tomb_history", cfg(200, n=3, columns=1), cfg(800, n=3, columns=2), ["reopened", "compacted"]),
        H("tskv", "tomb_history", cfg(60, n=2, wide=1, filters=1), None, ["reopened", "compacted"]),
        H("tskv", "tomb_torn", cfg(120, n=1, filters=1), cfg(300, n=1, filters=1), ["went on"]),
        H("tskv", "tomb_torn", cfg(60, n=2, columns=0, more=0), None, []),
    ],
    bounds="histories of three operations (delete a time range from one or two of three columns, reopen, prepare a compaction, install it) with every 64-bit time bound, the state read at an arbitrary time (in histories of two operations: through an arbitrary asked range, and with series filters); the deletions cut at every byte of the last one",
    outside="longer histories; deletions that arrive while the deletions of a compaction are being written (operations take the lock in turn), deletions that reach a file while its rows are being copied to a new one (the code has a TODO for them)",
)
PROPS["C19"] = dict(
    crates=["tskv", "models", "utils"],
    harnesses=[
        H("tskv", "flush_readback", cfg(100, len=2, known=1, small=1, digits=0), cfg(800, len=2, known=1, digits=0), ["column added", "column dropped", "deleted", "deleted later"]),
        H("tskv", "flush_readback", cfg(100, len=2, delete=0, rows=2, known=1, small=1, digits=0), cfg(600, len=3, delete=0, rows=2, known=1, small=1, digits=0), ["column added", "column dropped", "deleted"]),
        H("tskv", "flush_readback", cfg(60, len=3, delete=0, series=2, known=1, small=1, digits=0), cfg(600, len=4, delete=0, series=2, known=1, small=1, digits=0), ["column added", "column dropped", "deleted"]),
        H("tskv", "flush_readback", cfg(60, len=1), cfg(300, len=1, rows=2), ["deleted later"]),
        H("tskv", "flush_readback", cfg(60, len=1, zip=1), None, ["deleted later"]),
    ],
    bounds="histories of two operations on memory (write one or two rows, add or drop a column, delete a range), or three over two series, flushed to one file, read back, then one deletion of any range (of one column, of all, or as a compaction takes rows over), read before and after reopening; times of 8 symbolic bits in histories, of 64 in single writes; values known and distinct in histories, symbolic in single writes; metadata compressed or not",
    outside="larger blocks than two rows, several tables in one file, other column types (C14 has their encodings), text in messages (numbers in it are not looked at), the series filter is 64 bits instead of 1 MB",
)
PROPS["C20"] = dict(
    crates=["tskv", "models", "utils"],
    harnesses=[
        H("tskv", "compact_normal", cfg(100, files=2, versions=2, again=1, known=1, small=1, digits=0), cfg(600, files=2, series=2, versions=2, nulls=0, again=1, known=1, small=1, digits=0), ["compacted again"]),
        H("tskv", "compact_normal", cfg(60, files=2, series=2, known=1, small=1, digits=0), None, ["compacted"]),
        H("tskv", "compact_normal", cfg(60, files=2, deletes=1, known=1, small=1, digits=0), cfg(600, files=2, rows=2, blocks=1, nulls=0, deletes=1, known=1, small=1, digits=0), ["deleted"]),
        H("tskv", "compact_normal", cfg(60, files=2, rows=2, blocks=1, nulls=0, known=1, small=1, digits=0), cfg(400, files=2, rows=2, blocks=1, known=1, small=1, digits=0), ["compacted"]),
        H("tskv", "compact_normal", cfg(60, files=2, rows=2, block=1, nulls=0, known=1, small=1, digits=0), cfg(200, files=2, rows=2, block=1, known=1, small=1, digits=0), ["compacted"]),
        H("tskv", "compact_normal", cfg(60, files=2, known=1, digits=0), cfg(300, files=2, rows=2, known=1, digits=0), ["compacted"]),
        H("tskv", "compact_normal", cfg(60, files=3, nulls=0, versions=2, known=1, small=1, digits=0), cfg(400, files=2, rows=3, blocks=1, nulls=0, block=2, known=1, small=1, digits=0), ["compacted"]),
        H("tskv", "compact_delta", cfg(60, files=1, series=2, versions=2, nulls=0, known=1, small=1, digits=0), None, ["gone", "part"]),
        H("tskv", "compact_delta", cfg(60, files=1, rows=2, nulls=0, known=1, small=1, digits=0), cfg(400, files=1, rows=2, known=1, small=1, digits=0), ["gone", "part"]),
        H("tskv", "compact_delta", cfg(60, files=2, level=0, known=1, small=1, digits=0), cfg(600, files=2, level=0, deletes=1, known=1, small=1, digits=0), ["gone", "part"]),
        H("tskv", "compact_delta", cfg(60, files=1, deletes=1, level=0, known=1, small=1, digits=0), cfg(400, files=1, deletes=1, known=1, small=1, digits=0), ["deleted", "gone", "part"]),
    ],
    bounds="two files (three in one harness) of one or two rows per series, in one block or one per row, over one or two series, with null columns, a column added in between, and deletions recorded for a file; the result compacted once more with a further file; a delta compaction of one or two delta files with or without a level file and any time range taken over; times of 8 symbolic bits (64 in one harness); values known and distinct; blocks of at most 1 and 100 rows",
    outside="which files are picked, longer files, column types other than integers, dropped columns, deletions that arrive while a compaction runs (the code has a TODO for them), text in messages",
)

PROPS["C21"] = dict(
    crates=["tskv", "models", "utils"],
    harnesses=[
        H("tskv", "merge_streams", cfg(100, known=1, small=1, digits=0), None, ["merged"]),
        H("tskv", "newest_first", cfg(60, known=1, small=1, digits=0), None, ["merged"]),
        H("tskv", "read_series", cfg(120, known=1, small=1, digits=0), cfg(600, rows=2, known=1, small=1, digits=0, nulls=0), ["in two places", "read", "nothing"]),
        H("tskv", "read_series", cfg(100, versions=2, nulls=0, known=1, small=1, digits=0), cfg(400, versions=2, known=1, small=1, digits=0), ["in two places", "read", "nothing"]),
        H("tskv", "read_series", cfg(60, rows=2, nulls=0, filter=0, limit=1, known=1, small=1, digits=0), cfg(300, rows=2, filter=0, limit=1, known=1, small=1, digits=0), ["in two places", "read"]),
        H("tskv", "read_series", cfg(60, places=3, nulls=0, filter=0, known=1, small=1, digits=0), cfg(500, places=3, nulls=0, known=1, small=1, digits=0), ["in two places", "read"]),
    ],
    bounds="one series whose rows are in two places (three in one harness) among a file of level 2, a file of level 1, delta files, a memory cache being flushed and the current one; one or two rows in each, in one block or one per row, file numbers of level files lower or higher than those of newer files, null columns, a column added in between; a condition on the time, on a value, both or none; a limit or none; batches of one or two rows; times of 8 symbolic bits; values known and distinct. Merging alone: see harness/tskv/src/merge.rs",
    outside="several series at once run in parallel (the streams are read one after the other), aggregates pushed down, other column types, other conditions, deletions (C18, C20), table_scan and tag_scan above the series reader, and DataFusion's own filter",
)
