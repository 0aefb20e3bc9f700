c("F01", "tables, chunkings, encodings and storage completion schedules; oracle: the generated rows",
  "Every run writes one generated table through the real writer (or compressor plus writer) onto simulated storage and scans it back with the real reader under one drawn I/O schedule; rows, order, nulls, schema and termination are compared with the generator's own values.")
c("F02", "tables, projections, encodings and storage completion schedules; oracle: the generated columns",
  "Every run scans a generated file with a drawn projection (names, positions, orders) under a drawn I/O schedule and compares columns, their order, types and rows with the generator's values.")
c("F03", "tables, encodings, predicates, projections and storage completion schedules; oracle: a row-by-row evaluator of the predicate over the generated values",
  "Rows on which IEEE and total float order disagree may but need not pass; and/or of an unknown is unknown, as the repository's documentation shows.")
c("F04", "tables, chunkings, requested batch sizes and storage completion schedules; oracle: batch shape rules plus the generated rows",
  "Batch sizes, alignment across columns, absence of empty batches and completeness are checked for every batch as the scan proceeds.")
c("F05", "scans with injected read errors and short reads at drawn points; oracle: rows returned before the error are a correct prefix, then an error, then the end",
  "Faults: failed reads, short reads, delayed and reordered completions; the scan must neither hang, panic, nor invent rows, and a rescan of the same storage without faults is complete.")
c("F06", "crash points, truncations and lost tails of a file being written; oracle: the reader refuses whatever is not the complete file",
  "The writer is dropped at a drawn point or the sink loses a drawn suffix; the surviving bytes are opened with the real reader. Assumes the data does not itself embed a complete file image.")
c("F07", "sinks that fail, accept few bytes, or buffer until flushed, at drawn points; oracle: success implies the sink holds the complete readable file",
  "Faults: write errors, zero-length writes, partial writes, flush errors, pending writes; on success the accepted bytes are scanned back.")
c("F08", "interleavings of several scans over one file and one shared layout cache, with scans abandoned at drawn points; oracle: each surviving scan returns its own rows",
  "Tasks are polled by the simulator in a drawn order; scans differ in projection, filter and batch size and some are dropped mid-read.")
c("F09", "tables, projections, filters and I/O schedules with every read recorded; oracle: the byte ranges the file's own footer gives the needed columns",
  "Checks in-bounds, needed-only and at-most-once reads, next to the rows themselves.")
c("S01", "sequences of arrays and pages over a simulated pipe with fragmentation, back-pressure and task interleavings; oracle: the generated rows and page bytes",
  "Sender and receiver are two tasks the simulator schedules over a bounded pipe; what arrives is compared with what was sent, value by value and byte by byte.")
c("S02", "streams cut or failed at drawn bytes, with partial reads and write errors; oracle: the received arrays are a prefix of those sent, then an end or an error",
  "Faults: end of file, read errors and write errors at a drawn byte, on and off message borders. Assumes the bytes that arrive are unchanged.")
c("S03", "take_rows over streams and chunked files under drawn schedules and read faults; oracle: the selected generated rows",
  "Index lists of every integer type and encoding; reads fail, come short or come late.")
c("S04", "streams of arrays written with drawn chunkings, each recorded range read back under drawn I/O; oracle: the recorded offsets against the bytes and rows",
  "Every recorded byte range must hold exactly its array, and row offsets must add up.")
c("C01", "drawn sample positions, trial orders, enabled compressors and hints, with the result sent through a simulated stream; oracle: the generated values",
  "The sampler's random positions and the hash order of the compressor's trials are the simulated nondeterminism; every outcome must decode to the original values.")
c("T02", "drawn histories of slices, takes, filters, chunkings, compressions, transfers through simulated files and streams, and statistic queries in every order; oracle: each statistic recomputed from the generated values after every step",
  "What the queries leave behind depends on their order and on what travelled with the data; every statistic on offer is recomputed from the reference rows, also those of inner arrays.")
c("T03", "drawn histories of operations by one to three threads on shared arrays of drawn encodings, with the threads' turns drawn; oracle: the operation on plain rows, and every array that exists unchanged after every step",
  "Some thirty operations, operands made by earlier ones, handed to other threads or to Arrow; buffers taken out of arrays are written into. A comparison or cast that an encoding does not support may fail; wrong rows, panics and changes to existing arrays may not be.")
c("O01", "uploads through a simulated object store whose parts complete in drawn orders and fail at drawn points, with writers abandoned midway; oracle: the bytes handed over, and the object as it was before",
  "Raw write sequences, layout files and streams; a shutdown that succeeds leaves exactly the bytes written, anything else leaves the previous object. Stores that refuse incomplete uploads and stores that do not.")
c("O02", "scans, range reads and streams over a simulated object store with failing, short, oversized and late responses, then again after recovery; oracle: the generated rows and bytes",
  "Assumes a response of the right length holds the right bytes and that the object does not change during the read.")
c("T01", "threads interleaved at every lock operation of the shared statistics and between operations; oracle: every statistic recomputed from the generated rows, no deadlock, no lost or invented statistic",
  "Real threads, one running at a time, switched by the simulator at the lock hook; writers may or may not overtake waiting readers, as drawn.")
c("D01", "queries over stored files with drawn partitions, batch sizes, latencies, failing and short responses, queries given up midway and recovery; oracle: the query engine over its own in-memory table of the generated rows",
  "Filters, projections, order/limit/distinct, aggregates, groups, unions and joins, several at once, over several files; the engine's tasks are scheduled by the simulator.")
c("D02", "the same query with and without push down side by side under drawn schedules, partitions and batch sizes; oracle: each other and the query engine over the generated rows",
  "In-memory tables of drawn chunks and encodings.")
c("D03", "planner statistics and statistics-answered queries after drawn histories of queries and statistics requests over shared arrays; oracle: the generated rows",
  "Exact statistics must be exact, inexact ones are not judged; total_byte_size and extremes of floats with NaN or zeros are not judged.")
NA = {
 "K01": "Compute kernels are pure functions of their arguments: no schedule, time, I/O, randomness or failure takes part, so a simulator has nothing to decide (kernels are exercised incidentally by F*, S*, C01, D*).",
 "K02": "Arrow conversion is a pure in-memory function; nothing for a simulated schedule or fault to vary.",
 "K03": "Serialisation of types and scalars is a pure function of the value; nothing for a simulated schedule or fault to vary (scalars and types travel through F*/S* runs incidentally).",
 "K04": "The pruning expressions are pure and not wired to any reader at this commit (dead code outside their unit tests), so there is no system behaviour to simulate.",
 "K05": "The Python binding is a cdylib for an embedded interpreter: pyvortex and the GIL cannot run inside the single-process simulator, and the behaviour it adds is single-threaded conversion.",
}
