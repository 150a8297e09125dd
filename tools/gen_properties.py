#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
W, SW, BI, BS = "src/store/io/default_block_writer.rs", "src/store/segment_writer.rs", "src/store/block_index.rs", "src/store/block_sink.rs"
RD, IO = "src/store/io/unix_disk_block_reader.rs", "src/store/io/mod.rs"
BE, PE, RLE, OFF, BUF = "src/store/encoding/raw/binary_enc.rs", "src/store/encoding/raw/primitive_enc.rs", "src/store/encoding/bitmap_rle.rs", "src/store/encoding/offsets.rs", "src/store/indexing_buffer.rs"
ENC, VAR, PROTO, MAIN, SRV = "src/store/encoding/mod.rs", "src/store/encoding/varint.rs", "src/store/segment_metadata.proto", "src/main.rs", "src/server/mod.rs"
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
PRIV = "cfg(meerkat_sim) accessors: the crate is a binary and close/sync, block ranges and block index entries are private"

prop("C01", "Acknowledged segments survive crashes",
 "Once closing and then syncing a segment have both reported success, both of its files are present under the names derived from its id, and every row of every column closed in it reads back with the value, null-ness and order it was written with. This stays true after a process kill, or a power loss that keeps only what had been made durable (file data and directory entries alike), at any later instant, whatever other segments were being written, had failed or were being read then, and also when the client went on after an earlier error or after giving an operation up (dropping its future).",
 ["crash_points", "histories", "schedules", "fault_sequences"],
 "every crash instant after an acknowledgement, every choice of which unsynced writes and directory entries survive it, every history of concurrent segment writes and reads",
 "The tests never crash anything: one scaffold test closes and syncs one segment and does not even read it back.",
 [SW, W, BS], [("close() flushes both files, sync() makes both durable", SW), ("sync of the underlying file", W)],
 ["files of the segment directory after the simulated crash", "rows decoded from blocks read by the block reader"], PRIV)

prop("C02", "Column values read back exactly as appended",
 "For every column type and every encoding the writers accept, nullable or not, the rows read back from the file a column was written to are exactly the rows appended: the same values and nulls in the same order. This does not depend on how the rows are split into batches (including empty, all-null and null-terminated batches), on batch buffers being cleared and reused, on the target block size, on how column writers running at the same time interleave on the disk, or on a column writer being closed a second time (which is refused and stores nothing).",
 ["histories", "schedules", "inputs"],
 "every history of appends, clears and batch hand-overs, every block size, every interleaving of concurrent column writers over a disk that writes and reads short",
 "The encoder tests hand over one batch of at most three strings (or one int batch without nulls) and count blocks; no test decodes a block or reads a written column back.",
 [BE, PE, RLE, OFF, BUF, BS, SW], [("values carried over between batches until a block is full", BE), ("the same for fixed-width values", PE), ("validity bitmap run-length coding", RLE), ("packed item lengths", OFF), ("sparse reusable buffers", BUF)],
 ["rows decoded from the data file, compared with the model's list of appended rows"], PRIV)

prop("C03", "I/O failures are never acknowledged as success",
 "If creating, writing, flushing or syncing a segment's files fails or only partly completes (I/O error, disk full, too many open files, failed sync), then creating the segment, writing or closing a column, closing the segment or syncing it reports an error to the client, unless the stored segment is complete and durable all the same. Equivalently: when all of them reported success, the segment read back after an immediate power loss is complete and identical to what was written.",
 ["fault_sequences", "crash_points", "schedules"],
 "every placement of one or more hard I/O failures on the disk requests of a segment (including failures of background writes that only surface later), followed by power loss",
 "No test makes an I/O call fail.",
 [W, SW, BS], [("errors of background writes surface at the next write or flush", W), ("every step's error is propagated", SW)],
 ["results returned to the client", "durable image of the simulated disk"], PRIV)

prop("C04", "Transient I/O conditions are invisible",
 "Short writes, short reads, interrupted system calls and slow or reordered completion of disk requests never surface as an error and never change a result. The files written are the same as those of an undisturbed run, and block reads return the same bytes.",
 ["fault_sequences", "schedules"],
 "every pattern of short transfers, interruptions and delays on the disk requests of segment writers and block readers, under every schedule",
 "The tests run on a local file system that practically never writes or reads short or gets interrupted.",
 [W, RD, BS], [("write_all of each block", W), ("read_exact_at of each range", RD)],
 ["results returned to the client", "file contents compared with the undisturbed run of the same workload"], PRIV)

prop("C05", "A block read returns exactly the requested bytes or an error",
 "Reading one block returns exactly the bytes stored in the requested range of that file, or an error: never shortened, padded, shifted or mixed with those of another concurrent read. A range that is not wholly inside the file (past the end, inverted, or absurdly large) is an error that leaves the process and all other reads unharmed, and a range inside the file succeeds whenever the disk does not fail.",
 ["schedules", "fault_sequences", "inputs"],
 "every set of concurrent readers and ranges, every pattern of short reads, interruptions, disk errors, and files cut short under the reader",
 "One test reads 128 consecutive valid ranges once, sequentially, without any fault.",
 [RD, IO], [("positional read of exactly the range", RD), ("blocking work turned into an async result", IO)],
 ["bytes or error returned by the block reader"], PRIV)

prop("C06", "Batch reads are ordered, complete and isolated",
 "A batch read produces exactly one result per requested block, in request order, each carrying the caller's own tag and, when it succeeds, exactly that block's bytes, even when the disk finishes the requests out of order. A block that cannot be read produces an error carrying its tag at its own position and disturbs no other result of that batch or of any other batch.",
 ["schedules", "fault_sequences", "histories"],
 "every completion order of the underlying reads, every set of failing requests, any number of concurrent batches and consumers that stop half-way",
 "The one test reads one batch of valid blocks on an idle disk, where completions hardly ever overtake each other.",
 [RD, IO], [("bounded, order-preserving buffering of block reads", RD), ("tag carried from request to result or error", RD)],
 ["stream of results of a batch read"], PRIV)

prop("C07", "The block index describes the data file exactly",
 "For each column the block index built while writing it lists the column's blocks in file order by last row id and end offset, both strictly increasing, so that the blocks tile the column's part of the data file without gap or overlap and cover its rows 0..n-1, each exactly once; the position the block writer reports always equals the number of bytes in the file once pending writes are flushed. When the segment is closed the index is stored in the index file at the range its layout names. This holds however concurrent writers interleave and however short the disk's writes are.",
 ["histories", "schedules", "fault_sequences"],
 "every history of batches and columns, every interleaving of concurrent writers, every pattern of short writes",
 "No test looks at the row ids or offsets that are recorded, nor at a file holding two columns.",
 [BI, BS, BE, PE, W, SW], [("row counter of the encoders", BE), ("block registered after it is written", BS), ("running file position", W)],
 ["block index entries when a column is closed", "block writer position", "data file bytes"], PRIV,
 [("block_offset, block_row_id", "end offset and last row id of each block", BI)])

prop("C08", "Segments written concurrently are isolated",
 "Segments with different ids, or in different directories, that are written, fail, are abandoned half-way, closed or read at the same time never affect each other. Each acknowledged segment holds exactly its own columns in its own two files, no operation on one segment changes another's bytes, and no segment reports an error caused by another one's failure.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of writers of several segments (tasks of one runtime, or several threads), ids that differ in a single bit, the same id in two directories, failures hitting only some of them",
 "The tests write one segment at a time.",
 [SW, W, BS], [("file names derived from the full id", SW), ("each segment owns its writers, index and metadata", SW)],
 ["directory listing and file bytes", "results per segment"], PRIV)

prop("C09", "A retried segment id starts clean",
 "Creating a segment whose id was used by an earlier attempt that failed, was abandoned or was cut off by a crash starts from empty files. Once the new attempt is acknowledged, its files hold exactly the new attempt's contents and none of the earlier bytes, also after a further crash.",
 ["histories", "crash_points", "fault_sequences"],
 "every way an earlier attempt can end (at any disk request), with contents longer or shorter than the retry, with and without a crash in between and after",
 "Every test uses a fresh temporary directory and a fresh id.",
 [SW, W], [("files are truncated on creation", W)],
 ["file bytes after the retry is acknowledged"], PRIV)

prop("C10", "The index file describes exactly the closed columns",
 "The index file of an acknowledged segment starts with the index signature and its data file with the data signature; the last eight bytes of the index file give, in little-endian order, the position from which the metadata message runs up to those eight bytes. The metadata decodes to the segment id, database, table, shard and row count the segment was created with, and lists exactly the columns whose writers were closed successfully, each with the declared name, type, encoding, index kind and nullability and the layout its encoder reported; columns abandoned before being closed do not appear. A column of an encoding its type does not support, or with the name of a column already listed, is refused with an error and leaves no trace.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of columns opened, closed, refused and abandoned in a segment, with other segments in progress and the disk writing short",
 "The scaffold test never opens the files it wrote.",
 [SW, PROTO, W], [("metadata collected as columns close, written with its position as footer", SW)],
 ["bytes of the index file, decoded independently"], PRIV)

prop("C11", "Reads concurrent with appends are stable",
 "While a block file is still being written, every block read that succeeds returns the bytes that range holds when the file is complete. A block whose write was flushed before a read of it started is read back in full, and the length a reader reports is the size of the file at the moment it was opened.",
 ["schedules", "fault_sequences"],
 "every interleaving of appends, flushes, reader openings and block reads, with short writes leaving blocks half written",
 "The only test that reads, reads after the writer has finished.",
 [W, RD], [("append-only writes at the end of the file", W), ("positional reads that fail at end of file rather than returning less", RD)],
 ["bytes or error returned by readers opened while the file grows"], PRIV)

prop("C12", "Every operation finishes",
 "Creating a segment, writing and closing columns, closing and syncing it, opening a reader and reading blocks all complete, with success or an error, after a number of disk requests bounded by the amount of data involved. No schedule, blocking-pool size, batch shape or sequence of disk failures makes one hang, deadlock, loop forever or abort the process.",
 ["schedules", "inputs", "fault_sequences"],
 "every batch shape and block size, every blocking-pool size from one thread up, every schedule and fault sequence",
 "The tests use a handful of batches that fit into one or two blocks and the default pool.",
 [BE, PE, W, RD, IO], [("chunking loops advance through the batch", BE), ("blocking work always completes its future", IO)],
 ["disk requests and scheduler steps per operation", "deadlock detection by the simulator"], PRIV)

prop("C13", "Handles are released and cancellation is harmless",
 "Dropping a block reader, a batch read (even half consumed, with reads in flight), a single pending read, or a segment writer in any state releases every file handle it had opened as soon as the disk requests in flight have finished. It never changes the result of any operation on other handles, nor the contents of any file other than the unfinished one being dropped.",
 ["schedules", "histories", "fault_sequences"],
 "every point at which a future, stream, reader or writer is dropped, with other reads and writes in progress, including after failures",
 "No test drops anything before it has completed, or counts open files.",
 [RD, IO, W, SW], [("file handle shared by reference count with reads in flight", RD), ("writers own their files", W)],
 ["open handles of the simulated disk when all clients are done", "results of the remaining operations"], PRIV)

prop("C14", "Read-ahead of a batch is bounded",
 "A batch read never has more than two block reads started that the consumer has not yet taken, however slow the consumer is and however many blocks were requested. It starts no read before the consumer first asks for a result.",
 ["schedules", "histories"],
 "every consumer speed and completion order, batches of any length, several batches at once",
 "No test observes when reads are issued.",
 [RD], [("buffering limited to a fixed number of pending reads", RD)],
 ["disk read requests issued against results taken by the consumer"], PRIV)

prop("C15", "A synced block file keeps every accepted block",
 "When syncing a block file reports success, every block its writer had accepted before is durable, whole and in order, even if no flush was requested in between and whatever was appended later. After a crash at any later point the file begins with exactly those blocks; if one of them could not be stored, a write, flush or sync up to and including that sync reported an error. After a write, flush or sync that failed or was given up half-way, no later sync reports success unless the file nevertheless holds every accepted block, whole and in order.",
 ["crash_points", "fault_sequences", "histories"],
 "every history of block writes (of any size), flushes and syncs on one or more writers, every failing disk request, every crash point and choice of surviving unsynced writes",
 "The writer's sync is called once in the tests, and nothing is checked after it.",
 [W], [("sync waits for background writes, then syncs the file", W)],
 ["file bytes after the simulated crash", "results of write, flush and sync"], PRIV)

prop("C20", "Column indexes see every batch once and are stored with the column",
 "A column index attached to a column writer is given every batch the writer accepts exactly once, in the order and with the contents they were written, and is flushed exactly once, when the column is closed. What it writes to the index file stays there byte for byte, at the range it reports, and the layout of the column carries exactly that range, also when several segments with indexed columns are written at the same time and after a crash once the segment is acknowledged. If indexing a batch or flushing the index fails, the write or the close reports the error and the column is not listed.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "every history of batches (empty and all-null ones included), every interleaving of several indexed columns sharing one index file, every failing index call, disk request and crash point",
 "No test attaches an index to a column; the trait has no implementation in the repository.",
 [SW, "src/store/index/mod.rs", W], [("batches handed to encoder and index side by side", SW), ("index flushed into the index file when the column is closed", SW)],
 ["calls a client's ColumnIndex receives", "index file bytes", "column layouts in the metadata"], "sim_set_column_index (cfg meerkat_sim): the field is private and nothing sets it")

prop("C21", "Memory does not grow with what was written or read",
 "The memory a segment writer, a block writer or a block reader holds at any moment is bounded by a fixed multiple of the largest batch written or block requested at once (plus the few bytes per block the block index needs): it does not grow with the amount of data already written or read, with the number of syncs, or with the number of segments, readers and batches that came before. Once a writer, reader, stream or pending read is dropped, finished or not, failed or not, everything it held is released as soon as the disk requests in flight have finished.",
 ["histories", "schedules", "fault_sequences"],
 "histories of any length: large columns, many segments in a row (finished, failed or given up half-way), block files of any size, batches of any length read at any speed, pending reads dropped at any point",
 "The tests write and read a few kilobytes and measure no memory.",
 [BE, PE, W, RD, SW], [("values leave the buffer block by block", BE), ("a block is handed to the file at once", W), ("a block read owns one buffer of its size", RD)],
 ["bytes allocated by the code under test, live and at the peak, as counted by the simulator's allocator"], PRIV)

prop("C16", "Variable-length integers round-trip",
 "Every unsigned 64-bit integer decodes from its variable-length encoding to itself with the number of bytes written, and the predicted length equals the encoded length.",
 ["inputs"], "all 64-bit values", "The test checks the boundary values of each length only.",
 [VAR], [("encode_varint / decode_varint / encoded_len_varint", VAR)])
prop("C17", "The validity codec is lossless on every bitmap",
 "For every bitmap, decoding the run-length encoded form yields exactly the positions of its set bits.",
 ["inputs"], "all bitmaps", "Four fixed bitmaps are tested.",
 [RLE], [("run/literal state machine and decoder", RLE)])
prop("C18", "Buffers behave like lists of optional values",
 "Every in-memory column buffer behaves like a growable list of optional values under append, append-null and clear: lengths, null-ness and stored values agree with the list after every operation.",
 ["histories", "inputs"], "all operation sequences", "A few fixed sequences are tested, and contents are not compared after a clear.",
 [BUF], [("values plus validity bitmap", BUF)])
prop("C19", "Command-line configuration reaches the server unchanged",
 "The data directory, gossip port and comma-separated seed list given by flag or environment variable reach the server exactly as given, trimmed and in order.",
 ["inputs", "configurations"], "all argument and environment combinations", "No test covers argument parsing.",
 [MAIN, SRV], [("argument parsing", MAIN)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
