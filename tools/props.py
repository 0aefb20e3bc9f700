#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LR = "vortex-serde/src/layouts/read/"
LW = "vortex-serde/src/layouts/write/"

p("F01", "A written file scans back to exactly the rows written",
  "For every table of supported column types, however it is split into chunks (per table and per column) and however each chunk is encoded or compressed, a full scan of the finished file returns the same rows in the same order with the same types, nulls and schema. This holds for every order, delay and fragmentation with which storage completes the writer's and the scan's I/O, and the scan always terminates.",
  ["inputs", "schedules", "configurations"],
  "every table, chunking and encoding; every requested batch size; every completion order and latency of the storage operations; every spurious wake-up",
  "layouts/tests.rs round-trips a handful of small uncompressed tables over an in-memory buffer whose reads are always immediately ready; encodings x chunkings x batch sizes x completion orders is unbounded.",
  [LW+"writer.rs", LR+"stream.rs", LR+"buffered.rs", LR+"batch.rs", LR+"layouts/", "vortex-serde/src/message_writer.rs", "vortex-serde/src/message_reader.rs", "vortex-serde/src/messages.rs", "vortex-array/src/view.rs"],
  [("column chunk writer and footer", LW+"writer.rs"), ("batch stream state machine", LR+"stream.rs"), ("re-batching of chunks", LR+"buffered.rs"), ("column zipping", LR+"batch.rs"), ("array message encode/decode", "vortex-serde/src/messages.rs, message_reader.rs")],
  [("message cache", "buffers fetched so far, keyed by layout path"), ("per-column row/byte offsets", "where each chunk lives in the file")],
  ["bytes handed to the writer's sink", "arrays yielded by the scan", "schema reported by the scan"])

p("F02", "A projected scan returns exactly the requested columns",
  "Scanning a file with any non-empty list of distinct columns, given by position or by name and in any order, returns exactly those columns, in that order, with the same names, types, rows and nulls that a full scan gives, and reports that projected schema.",
  ["inputs", "schedules", "configurations"],
  "every table and every projection list, mixing names and positions; every storage completion order; with and without a row filter",
  "tests project two hand-picked columns of one 3-chunk file; index/name resolution against the on-disk column order is input dependent.",
  [LR+"layouts/column.rs", LR+"cache.rs", LR+"footer.rs", "vortex-dtype/src/serde/flatbuffers/", "vortex-schema/src/projection.rs"],
  [("field resolution and lazy dtype projection", LR+"cache.rs"), ("child layout selection", LR+"layouts/column.rs"), ("projected schema", LR+"footer.rs")])

p("F03", "A filtered scan returns exactly the rows its predicate selects",
  "A scan with a row filter returns, in file order, exactly the rows for which the predicate is true; a row whose predicate is false or null is never returned, and no selected row is lost, duplicated or altered. This holds whatever the chunking, encodings, batch size and projection (including filter columns that are not projected) and whatever order storage completes reads in.",
  ["inputs", "schedules", "configurations"],
  "every table, predicate (comparisons joined by and/or), projection, batch size and chunk layout; every completion order of the two interleaved readers of one scan",
  "tests filter a few rows with one or two comparisons on always-ready storage; the filter reader and the data reader of a scan advance independently and must stay aligned for every chunk/batch boundary combination.",
  [LR+"stream.rs", LR+"filtering.rs", LR+"builder.rs", "vortex-expr/src/expr.rs", "vortex-array/src/compute/filter.rs", "vortex-array/src/compute/compare.rs"],
  [("mask/data interleaving", LR+"stream.rs"), ("conjunct evaluation with short-circuit", LR+"filtering.rs"), ("shared message cache of both readers", LR+"cache.rs")],
  [("cached mask", "selection for the next data batch")])

p("F04", "Scan batches are aligned, bounded and follow the requested size",
  "Every batch of an unfiltered scan has equally long columns, and every batch but the last has exactly the requested number of rows (65536 when none is requested); a filtered scan never yields more than that per batch. Batch and chunk boundaries never change which rows are returned.",
  ["inputs", "configurations", "schedules"],
  "every combination of per-column chunk lengths (including empty chunks), batch size and completion order",
  "one test reads one table at one batch size; boundaries depend on per-column chunk lengths modulo the batch size.",
  [LR+"buffered.rs", LR+"batch.rs", LR+"layouts/flat.rs", LR+"layouts/chunked.rs"],
  [("row buffering per column", LR+"buffered.rs"), ("slicing of oversized chunks", LR+"layouts/flat.rs")])

p("F05", "A failing read surfaces as an error and never corrupts a scan",
  "If storage fails a read at any point, opening the file or the scan reports an error; the batches delivered before it are an exact prefix of the correct answer, nothing but end-of-stream follows the error, and the process does not crash. Opening and scanning the same file again after the fault clears gives the complete correct answer.",
  ["fault_sequences", "schedules", "inputs"],
  "every position, kind and number of failing reads relative to the scan's other in-flight reads, with and without filter and projection",
  "no test injects a storage error; each scan has up to ten reads in flight per step and an error can land in any of them.",
  [LR+"stream.rs", LR+"footer.rs", "vortex-serde/src/io/read.rs"],
  [("error state of the batch stream", LR+"stream.rs"), ("concurrent range reads", LR+"stream.rs read_ranges"), ("footer read", LR+"footer.rs")],
  [("streaming state", "idle / reading / decoding / failed")])

p("F06", "An unfinished or truncated file is refused, never half-read",
  "If writing stops at any instant - crash, torn or lost tail write, truncation to any length - before the complete file is durable, then opening whatever bytes survive (of whatever length, even zero) reports an error instead of succeeding, panicking or hanging. Only a file whose every byte survived opens, and it then yields every row.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash point between and inside the writer's write calls, every surviving prefix length",
  "no test truncates a file; a crash can land at any byte offset.",
  [LR+"footer.rs", LW+"writer.rs", "vortex-serde/src/layouts/mod.rs"],
  [("trailing magic/version marker", LW+"writer.rs finalize"), ("footer validation", LR+"footer.rs")])

p("F07", "Finishing a file succeeds only once the sink has accepted every byte",
  "When finishing a file reports success, the sink has accepted and flushed the complete file, every byte once and in order, so it can be reopened and scanned completely even if the sink is dropped without further calls. If any write or flush fails, including one whose error the sink reports late, writing or finishing the file reports an error.",
  ["fault_sequences", "crash_points", "schedules"],
  "every failing or delayed write/flush, disk-full position and short write, for sinks that buffer or complete writes in the background",
  "tests write only to in-memory vectors, which never fail, never buffer and never delay.",
  [LW+"writer.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/io/write.rs", "vortex-serde/src/io/tokio.rs", "vortex-serde/src/io/futures.rs"],
  [("finalize", LW+"writer.rs"), ("aligned message writing", "vortex-serde/src/message_writer.rs"), ("sink adapters", "vortex-serde/src/io/")])

p("F08", "Concurrent and abandoned scans of one file do not disturb each other",
  "Any number of scans over one file and one shared storage handle, interleaved arbitrarily, with different projections, filters and batch sizes, some dropped midway and some hit by storage errors, each return exactly what they would return alone.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of the scans' polls and I/O completions and every cancellation point",
  "no test runs two scans at once.",
  [LR+"stream.rs", LR+"builder.rs", LR+"cache.rs"],
  [("per-scan message cache", LR+"cache.rs"), ("per-scan state machine", LR+"stream.rs")])

p("F09", "A scan reads only the bytes it needs, in bounds, and each at most once",
  "Every read a scan issues lies inside the file; beyond the one tail read that fetches the footer, it fetches only data belonging to columns it projects or filters on, and fetches no byte range twice. The number of reads is therefore bounded by the number of chunks of those columns.",
  ["inputs", "schedules", "configurations"],
  "every table, projection, filter, batch size and completion order",
  "no test observes the reads a scan issues.",
  [LR+"stream.rs", LR+"cache.rs", LR+"layouts/column.rs", LR+"layouts/flat.rs"],
  [("message cache shared by filter and data readers", LR+"cache.rs"), ("range planning", LR+"layouts/flat.rs")])

p("S01", "A stream of arrays is received exactly as sent",
  "Any sequence of arrays, chunked arrays and raw byte pages written to a stream is read back in the same order with equal values, types and nulls, followed by a clean end, for every way the transport splits, delays or coalesces bytes and however the sending and receiving tasks interleave.",
  ["schedules", "inputs", "histories"],
  "every message sequence, dtype and encoding; every fragmentation of the byte stream down to single bytes; every interleaving of sender and receiver",
  "the IPC tests send one array through an in-memory cursor that always returns everything asked for.",
  ["vortex-serde/src/stream_writer/mod.rs", "vortex-serde/src/stream_reader/mod.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/message_reader.rs", "vortex-serde/src/messages.rs", "vortex-serde/src/io/"],
  [("message framing", "vortex-serde/src/message_writer.rs, message_reader.rs"), ("stream reader", "vortex-serde/src/stream_reader/mod.rs")],
  [("look-ahead message", "the reader holds the next message while yielding the current one")])

p("S02", "A cut or failing stream yields a correct prefix, then ends or errors",
  "If the transport ends or fails at any byte, the receiver first yields only arrays that were completely received, unaltered and in order, then reports an error or the end of the stream, and never yields a partial or wrong array, panics or hangs. A transport error, and a stream cut inside a message, is reported as an error and not as a clean end.",
  ["crash_points", "fault_sequences", "schedules"],
  "every byte offset at which the stream is cut or fails, including zero and inside a length prefix",
  "no test cuts a stream.",
  ["vortex-serde/src/message_reader.rs", "vortex-serde/src/stream_reader/mod.rs", "vortex-serde/src/dtype_reader.rs"],
  [("end-of-stream detection", "vortex-serde/src/message_reader.rs load_next_message"), ("buffer reads", "vortex-serde/src/message_reader.rs read_bytes")])

p("S03", "Taking rows by index from a stream or a stored file equals taking in memory",
  "Taking any strictly increasing list of in-range row indices from a stream of arrays, or through random access to its stored bytes using its chunk row and byte offsets, yields exactly those rows in that order, for every chunking, index type, encoding and I/O completion order; a failing read surfaces as an error.",
  ["inputs", "schedules", "fault_sequences"],
  "every chunking (including empty chunks and indices on chunk edges), every integer type of the index list, every completion order",
  "tests take a few fixed indices from one or two fixed chunkings.",
  ["vortex-serde/src/chunked_reader/take_rows.rs", "vortex-serde/src/chunked_reader/mod.rs", "vortex-array/src/stream/take_rows.rs", "vortex-array/src/compute/search_sorted.rs"],
  [("chunk location and coalesced reads", "vortex-serde/src/chunked_reader/take_rows.rs"), ("streaming take", "vortex-array/src/stream/take_rows.rs")])

p("S04", "Recorded stream offsets locate exactly each array chunk",
  "The byte and row offsets a stream writer reports for each array, and the byte range it reports for each page, delimit exactly the bytes of that schema, chunk or page: reading any chunk back from only those bytes gives exactly that chunk, row offsets are the running row counts, and pages come back byte for byte.",
  ["inputs", "histories", "schedules"],
  "every interleaving of arrays, chunk counts and pages in one stream and every sink delay",
  "tests check offsets only implicitly for one array per stream.",
  ["vortex-serde/src/stream_writer/mod.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/io/offset.rs"],
  [("layout recording", "vortex-serde/src/stream_writer/mod.rs"), ("position tracking and padding", "vortex-serde/src/message_writer.rs")])

p("O01", "An object-store upload publishes the complete object or fails",
  "Writing through an object store's multipart upload publishes, once shutdown succeeds, exactly the bytes written in order, regardless of the order, delay and concurrency in which parts complete; nothing is visible before completion, and if any part or the completion fails an error is reported and no object appears.",
  ["schedules", "fault_sequences", "inputs"],
  "every part completion order, every failing part, every write size pattern around the part size",
  "no test uploads more than one part or fails one.",
  ["vortex-serde/src/io/object_store.rs", "vortex-serde/src/io/write.rs"],
  [("multipart writer", "vortex-serde/src/io/object_store.rs")])

p("O02", "Object-store reads return exactly the requested bytes or an error",
  "Reading a file from an object store, with any ordering and latency of concurrent ranged requests, gives the same result as reading it from memory; a failed request, or a response of the wrong length, surfaces as an error and never as wrong data, a panic or a hang.",
  ["schedules", "fault_sequences", "inputs"],
  "every completion order of concurrent range requests, every failing, short or oversized response",
  "the only object-store tests use the infallible in-memory store.",
  ["vortex-serde/src/io/object_store.rs", "vortex-serde/src/io/read.rs", LR+"stream.rs"],
  [("ranged read", "vortex-serde/src/io/object_store.rs")])

p("C01", "Compression is lossless whatever it samples or chooses",
  "Compressing any array gives an array of the same type and length whose every value and null equals the original's, whatever sample positions are drawn, whatever subset of compressors is enabled, in whatever order they are tried, and whatever earlier array's compression is offered as a hint; this still holds after the result is written, read back and decompressed.",
  ["inputs", "configurations", "histories", "schedules"],
  "every array, enabled compressor set, sampling randomness, hash iteration order and history of hints across chunks",
  "tests compress a few well-behaved columns with the default set, one fixed sampling seed and no hint history.",
  ["vortex-sampling-compressor/src/", "encodings/", "vortex-array/src/compress.rs"],
  [("sampling and candidate choice", "vortex-sampling-compressor/src/sampling_compressor.rs, sampling.rs"), ("per-encoding compressors", "vortex-sampling-compressor/src/compressors/"), ("codecs", "encodings/*/src/")],
  [("compression tree", "choice remembered from an earlier chunk and offered as hint")])

p("T01", "Shared arrays report true statistics under every thread interleaving",
  "When several threads concurrently query, compute and copy statistics of arrays they share (directly or through containing arrays), every thread observes only true values of the array's contents, a statistic once observed stays observable, and all threads finish: no deadlock and no panic.",
  ["schedules", "inputs", "histories"],
  "every interleaving of lock operations by 2-4 threads, over every array shape and sequence of statistic requests",
  "statistics tests are single threaded.",
  ["vortex-array/src/data.rs", "vortex-array/src/stats/", "vortex-array/src/array/*/stats.rs"],
  [("statistics cache and its lock", "vortex-array/src/data.rs")],
  [("statistics map", "lazily computed statistics shared by all clones of an array")],
  hook="scheduling points around the statistics lock (cfg vortex_sim)")

p("T02", "Statistics that travel with data are true of that data",
  "Every statistic available on an array - after any history of slicing, taking, filtering, chunking, compressing and computing, and after the array is written to a file or stream, read back and re-batched - is true of the rows the array holds: minimum and maximum, null and true counts, constancy and sortedness agree with its values.",
  ["inputs", "histories", "schedules"],
  "every array, every order in which statistics are computed before writing, every sequence of operations and re-batching after reading",
  "tests check individual statistics on fresh arrays of a few encodings.",
  ["vortex-array/src/stats/statsset.rs", "vortex-array/src/array/*/stats.rs", "vortex-array/src/view.rs", "encodings/*/src/", "vortex-serde/src/messages.rs"],
  [("statistics merge", "vortex-array/src/stats/statsset.rs"), ("persisted statistics", "vortex-array/src/stats/flatbuffers.rs, vortex-array/src/view.rs")])

p("D01", "SQL over stored files gives the reference answer or an error",
  "A SQL query (projection, filter, aggregation, ordering, limit) over files registered with the query engine returns the same result as evaluating it over the rows directly, for every split of rows into files, chunks and encodings and every order in which the object store completes requests; if the store fails requests, the query returns an error or the complete correct answer, never a partial one.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every table, query, file split, completion order and failing request",
  "the file-table tests run two fixed queries over a local directory.",
  ["vortex-datafusion/src/persistent/", "vortex-datafusion/src/lib.rs", "vortex-expr/src/datafusion.rs", LR+"stream.rs"],
  [("file opener", "vortex-datafusion/src/persistent/opener.rs"), ("scan execution", "vortex-datafusion/src/persistent/execution.rs, provider.rs"), ("predicate conversion", "vortex-expr/src/datafusion.rs")])

p("D02", "SQL over in-memory tables is the same with and without pushdown",
  "A SQL query over a registered in-memory table returns the same result with predicate pushdown enabled and disabled, and both equal evaluating the query over the rows directly, for every chunking, encoding and interleaving of the query's tasks.",
  ["inputs", "schedules", "configurations"],
  "every table, query, chunking, encoding, partition count and task interleaving",
  "tests compare a few fixed queries over one small table.",
  ["vortex-datafusion/src/memory.rs", "vortex-datafusion/src/plans.rs", "vortex-datafusion/src/lib.rs"],
  [("row selector and take-rows operators", "vortex-datafusion/src/plans.rs"), ("supported-filter decision", "vortex-datafusion/src/lib.rs, memory.rs")])

p("D03", "Table statistics given to the query planner are never wrong",
  "Row counts, null counts, minima and maxima that an in-memory table reports to the query engine as exact equal those of its rows, for every chunking, encoding and history of statistics computed beforehand, so that queries answered from statistics alone give the same result as scanning.",
  ["inputs", "histories", "configurations"],
  "every table, chunking, encoding, and subset of columns whose chunk statistics were already computed",
  "one test checks one integer and one string column.",
  ["vortex-datafusion/src/statistics.rs", "vortex-datafusion/src/memory.rs", "vortex-array/src/array/chunked/stats.rs", "vortex-array/src/stats/statsset.rs"],
  [("statistics aggregation", "vortex-datafusion/src/statistics.rs")])

# ---- not applicable to deterministic simulation: pure functions of their inputs
p("K01", "Compute kernels agree with their canonical form for every encoding",
  "Slicing, taking, filtering, comparing, casting, searching and scalar access on any encoded array give the same values as performing them on its canonical form.",
  ["inputs"], "every array of every encoding and every kernel argument",
  "tests sample a few arrays per kernel.",
  ["vortex-array/src/compute/", "vortex-array/src/array/", "encodings/"],
  [("kernel dispatch", "vortex-array/src/compute/")])
p("K02", "Conversion to and from Arrow preserves values, types and nulls",
  "Any Arrow array or record batch of a supported type converted in and back out is equal to the original.",
  ["inputs"], "every Arrow array of a supported type",
  "tests convert a few arrays.",
  ["vortex-array/src/arrow/", "vortex-array/src/canonical.rs"],
  [("conversion", "vortex-array/src/arrow/, canonical.rs")])
p("K03", "Types and scalars survive serialisation in every wire format",
  "Every type and scalar value encoded to flatbuffers or protobuf and decoded again is equal to the original.",
  ["inputs"], "every type and scalar", "tests encode a few of each.",
  ["vortex-dtype/src/serde/", "vortex-scalar/src/serde/"],
  [("serialisers", "vortex-dtype/src/serde/, vortex-scalar/src/serde/")])
p("K04", "Statistics pruning predicates never discard a matching chunk",
  "A predicate rewritten against chunk statistics is false only for chunks in which no row satisfies the original predicate.",
  ["inputs"], "every predicate and chunk", "tests compare a few rewritten expressions textually.",
  ["vortex-serde/src/layouts/pruning.rs"],
  [("predicate rewrite (not yet called by any reader)", "vortex-serde/src/layouts/pruning.rs")])
p("K05", "Python reads and writes return what Rust reads and writes return",
  "Arrays and files exchanged through the Python bindings hold the same values as through the Rust interface.",
  ["inputs"], "every array and file", "python tests cover a few.",
  ["pyvortex/src/"],
  [("bindings", "pyvortex/src/io.rs, dataset.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
