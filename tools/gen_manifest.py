#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "C01": "seeded search over crash points (kill, power loss keeping only durable data, durable data plus a random part of the rest, lost directory entries), client interleavings, retries and faults; a fresh simulated process reads back every acknowledged segment and compares it with the reference model",
 "C02": "seeded search over column types, batch shapes, block sizes, encodings and writer interleavings; every stored column is decoded by an independent decoder and compared row by row",
 "C03": "seeded search over the failing request, the errno, partial writes, full disk and failed sync; everything acknowledged is read back after a simulated power loss",
 "C04": "the same plan is run undisturbed and then with short transfers, EINTR, delays, spurious wake-ups and clock jumps; files, indexes and read results must be identical",
 "C05": "seeded search over ranges (valid, empty, inverted, past the end, absurdly large), concurrent readers, short reads, delays and read errors under a 256 MB memory limit",
 "C06": "seeded search over batches of up to hundreds of blocks with unreadable ones among them, reordered and delayed completion, several batches at once",
 "C07": "the block index is compared with an independent decoding of the blocks in the written file after every run, with concurrent writers and short writes",
 "C08": "seeded search over segments written, failing, abandoned, closed and read at once in one directory; each acknowledged one is compared with its own model and undisturbed clients must see no error",
 "C09": "seeded search over histories of attempts with one id: failed, dropped at any await, cut off by kill or power loss, then retried",
 "C10": "footer, metadata message and column lists of acknowledged segments are decoded from the raw bytes and compared with the model",
 "C11": "seeded search over a block writer appending while readers open, read and re-open the file; each result is compared with the finished image",
 "C12": "every phase must end within a bounded number of disk requests and scheduling steps: the simulator sees deadlock, livelock, spinning, panics and aborts directly",
 "C13": "seeded search over the point at which futures, streams, readers and writers are dropped; open simulated descriptors are counted once everything in flight is done, other results must stay correct",
 "C14": "an invariant evaluated at every simulated read request against the results the consumer has taken",
 "C15": "seeded search over histories of writes, flushes and syncs of bare block files with failing requests and crashes; the surviving file is compared with the accepted blocks",
 "C20": "simulated column indexes record every call and write into the index file; calls, bytes and layouts are compared with the model under concurrent columns, failing index calls, disk faults and crashes",
 "C21": "seeded search over long histories (megabytes of columns and block files, dozens of finished, failing and abandoned segments, thousands of block reads, cancelled reads); the simulator's allocator counts what the code under test holds, live and at the peak",
}
NA = {
 "C16": "a pure, sequential function of one integer: no scheduling, time, I/O, failure or second party for a simulated execution to vary, so deterministic simulation has nothing to decide (the varints inside stored blocks are exercised by C02)",
 "C17": "a pure, sequential function of one bitmap: no scheduling, time, I/O or failure for a simulated execution to vary (validity bitmaps of stored columns are decoded and compared by C02)",
 "C18": "a sequential in-memory data structure without concurrency, time, I/O or failure; only its effect on stored columns can be reached by simulation, and that is C02",
 "C19": "argument parsing at process start: a pure function of arguments and environment; the server it configures only prints its configuration, so there is no execution to simulate",
}
HOOK = ["71570fc", "d6ef724", "7f86c10", "24545b6"]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {
  "guard": "cfg(meerkat_sim)",
  "enable": "the harness compiles /repo/src/store into its own crate (sim/store, #[path] inclusion, since /repo has no library target) with --cfg meerkat_sim set by sim/store/build.rs",
  "source_commits": HOOK,
 },
 "checks": [{
  "property": p,
  "quick_cmd": f"./check.sh {p}",
  "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
  "technique": "deterministic simulation with fault injection",
  "level": "exploration",
  "level_note": n,
 } for p, n in NOTE.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
